// Case generation from recorded choices, worker processes, confirmation,
// shrinking, replay files and evidence.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

struct Failure { std::string msg; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed);

struct Rng { uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n) { uint64_t x = next(); size_t k = n < 8 ? n : 8; for (size_t i = 0; i < k; i++) b[i] = x >> (8 * i); b += k; n -= k; } }
};

// Shared between a worker and the parent, so that choices survive a crash.
static const uint32_t MAX_CHOICES = 1 << 19, MAX_SPANS = 1 << 17;
struct Shm {
  volatile int status;         // 0 idle, 1 running, 2 failed, 3 done
  volatile uint64_t idx;       // case being run
  volatile uint64_t n_done;
  volatile uint32_t n, n_spans;
  volatile int stop;
  char msg[16384];
  uint64_t choices[MAX_CHOICES];
  struct { uint32_t a, b; } spans[MAX_SPANS];
};

class Src {
 public:
  Src(Shm *m, uint64_t seed) : shm(m), rng(seed), replay(nullptr), rn(0), pos(0) { m->n = 0; m->n_spans = 0; }
  // the given choices, then random ones
  Src(Shm *m, const uint64_t *r, size_t n, uint64_t seed) : shm(m), rng(seed), replay(r), rn(n), pos(0), go_on(true) { m->n = 0; m->n_spans = 0; }
  Src(Shm *m, const uint64_t *r, size_t n) : shm(m), rng(0), replay(r), rn(n), pos(0) { m->n = 0; m->n_spans = 0; }
  // Uniform in [0, n). Simplest value: 0.
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay && (pos < rn || !go_on)) { v = pos < rn ? replay[pos] : 0; if (v >= n) v %= n; }
    else v = rng.next() % n;
    push(v);
    return v;
  }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // simplest: false
  uint64_t seed() { return below(1ULL << 32); }
  // Biased to small values, at most n-1.
  uint64_t small(uint64_t n) { uint64_t k = below(4); uint64_t m = k == 0 ? 4 : k == 1 ? 16 : k == 2 ? 64 : n; return below(m < n ? m : n); }
  size_t weighted(const unsigned *w, size_t n) {
    uint64_t t = 0; for (size_t i = 0; i < n; i++) t += w[i];
    uint64_t v = below(t);
    for (size_t i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
    return 0;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  uint64_t pickl(std::initializer_list<uint64_t> l) { return l.begin()[below(l.size())]; }
  size_t begin() { return pos; }
  void end(size_t a) { if (shm->n_spans < MAX_SPANS && pos > a) { shm->spans[shm->n_spans].a = a; shm->spans[shm->n_spans].b = pos; shm->n_spans = shm->n_spans + 1; } }
  size_t used() const { return pos; }
 private:
  void push(uint64_t v) { if (pos < MAX_CHOICES) { shm->choices[pos] = v; shm->n = pos + 1; } pos++; }
  Shm *shm; Rng rng; const uint64_t *replay; size_t rn, pos; bool go_on = false;
};
struct Span { Src &s; size_t a; explicit Span(Src &s_) : s(s_), a(s_.begin()) {} ~Span() { s.end(a); } };

struct Stats { std::map<std::string, uint64_t> labels; std::vector<uint64_t> nontrivial; uint64_t cases = 0, sub = 0; };

struct Ctx {
  Src &s;
  Stats &st;
  uint64_t case_seed;     // for derived deterministic data only
  std::string dir;        // scratch directory of this case
  FILE *log = nullptr;    // set when a trace is wanted
  bool nontrivial = false;
  bool thorough = false;
  uint64_t idx = 0;
  void label(const std::string &l, uint64_t n = 1) { st.labels[l] += n; }
  void logf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Stage {
  const char *name;
  void (*fn)(Ctx &);
  uint64_t quick, thorough;   // cases
  unsigned workers = 8;
  unsigned cpu = 25;           // seconds of processor time that no terminating case uses
};
struct Prop {
  const char *id;
  const char *rule;
  std::vector<Stage> stages;
};
extern const Prop the_prop;   // defined by the one property file linked in

extern Shm *cur_shm;          // of this worker
void die_fail(const char *msg); // async-safe-ish: report a failure and exit
void rm_tree(const std::string &dir); // inside the scratch directory only
