#include "engine.hh"
#include "ref.hh"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <algorithm>
#include <set>

Shm *cur_shm;
static int cur_case_active;

std::string sfmt(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void fail(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{b};
}
void Ctx::logf(const char *fmt, ...) {
  if (!log) return;
  va_list ap; va_start(ap, fmt); vfprintf(log, fmt, ap); va_end(ap); fputc('\n', log); fflush(log);
}
uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  h ^= n * 0x9e3779b97f4a7c15ULL;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return mix64(h);
}
void die_fail(const char *msg) {
  if (cur_shm) { snprintf(cur_shm->msg, sizeof cur_shm->msg, "%s", msg); cur_shm->status = 2; }
  fprintf(stderr, "FAILURE: %s\n", msg);
  _exit(76);
}

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:quarantine_size_mb=8:malloc_context_size=8:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:abort_on_error=0:disable_coredump=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:history_size=4:io_sync=0:detect_deadlocks=0:flush_memory_ms=0:handle_abort=1:report_atomic_races=0"; }

// Scratch directories ------------------------------------------------------
static std::string scratch;
void rm_tree(const std::string &p) {
  if (p.compare(0, scratch.size(), scratch) != 0 || scratch.size() < 10) return;
  DIR *d = opendir(p.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      std::string q = p + "/" + e->d_name;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(q); else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}
static void at_case_end(const std::string &dir) { if (chdir(scratch.c_str())) {} rm_tree(dir); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Shm *new_shm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm *)p;
}

// One case in this process. Returns false on a (reported) failure.
void case_reset();   // wrap.cc: hooks back to pass-through
static uint64_t choice_hash(Shm *m) { return hash_bytes(m->choices, m->n * sizeof(uint64_t), 7); }

static bool run_case(const Stage &sg, Shm *m, Src &src, Stats &st, uint64_t cseed, uint64_t idx, FILE *log, bool thorough) {
  std::string dir = scratch + sfmt("/c%d", (int)getpid());
  rm_tree(dir);
  if (mkdir(dir.c_str(), 0755) || chdir(dir.c_str())) { fprintf(stderr, "cannot make %s\n", dir.c_str()); _exit(2); }
  Ctx c{src, st, cseed, dir};
  c.log = log; c.thorough = thorough; c.idx = idx;
  m->msg[0] = 0;
  m->status = 1;
  cur_case_active = 1;
  case_reset();
  bool ok = true;
  try { sg.fn(c); }
  catch (Failure &f) { ok = false; snprintf(m->msg, sizeof m->msg, "%s", f.msg.c_str()); if (log) fprintf(log, "FAILURE: %s\n", f.msg.c_str()); }
  cur_case_active = 0;
  case_reset();
  m->status = ok ? 0 : 2;
  at_case_end(dir);
  if (ok) {
    st.cases++;
    if (c.nontrivial) st.nontrivial.push_back(choice_hash(m));
  }
  return ok;
}

static void limit_cpu(unsigned secs) {
  // CPU time, not wall time: a case that burns this much does not terminate.
  itimerval it{}; it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int) { die_fail("no end: the case used more processor time than any terminating one could"); }
static unsigned CPU_LIMIT = 25;

static uint64_t case_seed(uint64_t seed, const char *id, const char *stage, uint64_t idx) {
  uint64_t h = hash_bytes(id, strlen(id), seed * 0x9e3779b97f4a7c15ULL + 1);
  h = hash_bytes(stage, strlen(stage), h);
  return mix64(h + idx * 0xd1342543de82ef95ULL);
}

static void put_stats(int fd, const Stats &st) {
  FILE *f = fdopen(fd, "w");
  fprintf(f, "%llu %llu %zu\n", (unsigned long long)st.cases, (unsigned long long)st.sub, st.nontrivial.size());
  for (uint64_t h : st.nontrivial) fprintf(f, "%llx\n", (unsigned long long)h);
  for (auto &l : st.labels) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
  fclose(f);
}
static void get_stats(const std::string &path, Stats &st) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return;
  unsigned long long a, b; size_t n;
  if (fscanf(f, "%llu %llu %zu\n", &a, &b, &n) == 3) {
    st.cases += a; st.sub += b;
    for (size_t i = 0; i < n; i++) { unsigned long long h; if (fscanf(f, "%llx\n", &h) != 1) break; st.nontrivial.push_back(h); }
    char line[1024];
    while (fgets(line, sizeof line, f)) {
      char *sp; unsigned long long v = strtoull(line, &sp, 10);
      std::string l = sp + 1; if (!l.empty() && l.back() == '\n') l.pop_back();
      st.labels[l] += v;
    }
  }
  fclose(f);
}

static std::string file_head(const std::string &p, size_t max) {
  FILE *f = fopen(p.c_str(), "r"); if (!f) return "";
  std::string s; char b[4096]; size_t n;
  while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  if (s.size() > max) s.resize(max);
  return s;
}
static std::string crash_summary(const std::string &err, int status) {
  std::string s = file_head(err, 1 << 20), r;
  size_t p;
  auto line = [&](size_t at) { size_t e = s.find('\n', at); return s.substr(at, (e == std::string::npos ? s.size() : e) - at); };
  if ((p = s.find("ERROR: AddressSanitizer")) != std::string::npos || (p = s.find("WARNING: ThreadSanitizer")) != std::string::npos || (p = s.find("runtime error:")) != std::string::npos) {
    size_t b = s.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
    r = line(b);
    // the first frames, for the reader
    size_t q = p; for (int i = 0; i < 6; i++) { q = s.find("\n    #", q + 1); if (q == std::string::npos) break; r += " |" + line(q + 1); }
  } else if ((p = s.find("ssertion")) != std::string::npos) { size_t b = s.rfind('\n', p); r = line(b == std::string::npos ? 0 : b + 1); }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 99) r = "valgrind: an uninitialised value decides or is written, or an invalid access (its report is on stderr)";
  else r = s.substr(0, 300);
  if (WIFSIGNALED(status)) r += sfmt(" (signal %d)", WTERMSIG(status));
  else r += sfmt(" (exit %d)", WEXITSTATUS(status));
  return r;
}

// Run one choice sequence (or a list of case indices) in a fresh child.
struct Outcome { bool failed; std::string msg; std::vector<uint64_t> choices; std::vector<std::pair<uint32_t, uint32_t>> spans; bool blocked = false; };
static Shm *rshm;
static bool g_thorough;
static uint64_t g_seed;

static Outcome run_child(const std::function<bool()> &body, double wall_cap, const char *logfile = nullptr) {
  std::string err = scratch + "/err-replay";
  rshm->status = 1; rshm->n = 0; rshm->n_spans = 0; rshm->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    int fd = open(logfile ? logfile : err.c_str(), O_CREAT | (logfile ? O_APPEND : O_TRUNC) | O_WRONLY, 0644);
    dup2(fd, 2); dup2(fd, 1); close(fd);
    cur_shm = rshm;
    signal(SIGPROF, on_prof); limit_cpu(CPU_LIMIT);
    bool ok = body();
    _exit(ok ? 0 : 76);
  }
  double t0 = now(); int st; Outcome o{false, "", {}, {}};
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > wall_cap) {
      kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0);
      o.failed = true; o.blocked = true; o.msg = sfmt("no end: the case waits for something that does not come (no result after %.0f s)", wall_cap);
      o.choices.assign(rshm->choices, rshm->choices + rshm->n);
      return o;
    }
    usleep(now() - t0 < 0.02 ? 200 : 2000);
  }
  kill(-pid, SIGKILL);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) { fprintf(stderr, "harness error in replay\n%s", file_head(err, 2000).c_str()); exit(2); }
    o.failed = true;
    o.msg = rshm->status == 2 ? std::string(rshm->msg) : crash_summary(logfile ? logfile : err, st);
    o.choices.assign(rshm->choices, rshm->choices + rshm->n);
    for (uint32_t i = 0; i < rshm->n_spans; i++) o.spans.push_back({rshm->spans[i].a, rshm->spans[i].b});
  }
  return o;
}
static uint64_t g_cidx; // index of the case being confirmed, shrunk or replayed
static Outcome run_choices(const Stage &sg, const std::vector<uint64_t> &ch, uint64_t cseed, const char *logfile = nullptr) {
  return run_child([&] {
    Stats st; Src s(rshm, ch.data(), ch.size());
    return run_case(sg, rshm, s, st, cseed, g_cidx, logfile ? stderr : nullptr, g_thorough);
  }, 60 + 3 * CPU_LIMIT, logfile);
}
static Outcome run_indices(const Stage &sg, const std::vector<uint64_t> &idx, const char *logfile = nullptr) {
  return run_child([&] {
    Stats st;
    for (uint64_t i : idx) {
      uint64_t cs = case_seed(g_seed, the_prop.id, sg.name, i);
      Src s(rshm, cs);
      if (!run_case(sg, rshm, s, st, cs, i, logfile ? stderr : nullptr, g_thorough)) return false;
    }
    return true;
  }, 900, logfile);
}

// Coverage -------------------------------------------------------------------
// Which edges of the library a case takes and how often, where it is built so.
static uint8_t *cov_a, *cov_b;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) { cov_a = a; cov_b = b; }
struct Guide {
  struct Entry { std::vector<uint64_t> ch; std::vector<std::pair<uint32_t, uint32_t>> sp; };
  std::vector<Entry> corpus; std::vector<uint8_t> seen; uint64_t cases = 0;
  Guide() : seen(cov_b - cov_a, 0) {}
  void before() { if (cov_b > cov_a) memset(cov_a, 0, cov_b - cov_a); }
  // After a case: keep it if it did something new.
  void after(Shm *m, bool keep) {
    bool fresh = false;
    for (size_t i = 0, n = seen.size(); i < n; i++) {
      unsigned v = cov_a[i]; if (!v) continue;
      uint8_t b = v >= 128 ? 128 : v >= 32 ? 64 : v >= 16 ? 32 : v >= 8 ? 16 : v >= 4 ? 8 : v == 3 ? 4 : v;
      if (!(seen[i] & b)) { seen[i] |= b; fresh = true; }
    }
    if (!fresh || !keep || m->n == 0 || m->n > 20000) return;
    Entry e; e.ch.assign(m->choices, m->choices + m->n);
    for (uint32_t i = 0; i < m->n_spans && i < 4000; i++) e.sp.push_back({m->spans[i].a, m->spans[i].b});
    if (corpus.size() < 3000) corpus.push_back(e);
  }
  std::vector<uint64_t> mutant(Rng &r) {
    auto entry = [&]() -> const Entry & { size_t n = corpus.size(); return r.next() % 3 ? corpus[n - 1 - r.next() % std::min<size_t>(n, 1 + n / 4)] : corpus[r.next() % n]; };
    const Entry &e = entry(); std::vector<uint64_t> c = e.ch;
    for (unsigned k = 1 + r.next() % 4; k > 0 && !c.empty(); k--) {
      auto span = [&](const Entry &x, size_t lim) { std::pair<uint32_t, uint32_t> p{0, 0}; for (int i = 0; i < 8 && !x.sp.empty(); i++) { p = x.sp[r.next() % x.sp.size()]; if (p.second <= lim && p.first < p.second) return p; } uint32_t a = r.next() % lim; return std::make_pair(a, (uint32_t)std::min<size_t>(lim, a + 1 + r.next() % 8)); };
      size_t at = r.next() % c.size();
      switch (r.next() % 9) {
        case 0: c[at] = r.next(); break;
        case 1: c[at] = r.next() % 8; break;
        case 2: c[at] += r.next() % 2 ? 1 : (uint64_t)-1; break;
        case 3: c[at] = c[r.next() % c.size()]; break;
        case 4: { auto p = span(e, c.size()); c.erase(c.begin() + p.first, c.begin() + p.second); break; }
        case 5: { auto p = span(e, c.size()); std::vector<uint64_t> x(c.begin() + p.first, c.begin() + p.second); if (c.size() + x.size() < 20000) c.insert(c.begin() + p.second, x.begin(), x.end()); break; }
        case 6: { const Entry &o = entry(); auto q = span(o, o.ch.size()); auto p = span(e, c.size()); if (c.size() + (q.second - q.first) < 20000) c.insert(c.begin() + p.first, o.ch.begin() + q.first, o.ch.begin() + q.second); break; }
        case 7: { const Entry &o = entry(); auto q = span(o, o.ch.size()); auto p = span(e, c.size()); c.resize(p.first); c.insert(c.end(), o.ch.begin() + q.first, o.ch.end()); break; }
        case 8: c.resize(at); break; // the rest anew
      }
    }
    return c;
  }
};

// Shrinking ------------------------------------------------------------------
struct Shrinker {
  const Stage &sg; uint64_t cseed; Outcome best; int runs = 0; double t0 = now(); int max_runs = 1500; double max_s = 60;
  bool spent() { return runs >= max_runs || now() - t0 > max_s; }
  static uint64_t weight(const std::vector<uint64_t> &c) { uint64_t w = 0; for (auto v : c) { w += 64 - (v ? __builtin_clzll(v) : 64); } return w; }
  bool attempt(const std::vector<uint64_t> &c) {
    if (spent()) return false;
    runs++;
    Outcome o = run_choices(sg, c, cseed);
    if (!o.failed) return false;
    // what was really consumed
    if (o.choices.size() > best.choices.size() || (o.choices.size() == best.choices.size() && weight(o.choices) >= weight(best.choices))) return false;
    best = o;
    return true;
  }
  void run() {
    bool progress = true;
    while (progress && !spent()) {
      progress = false;
      // delete spans, largest first
      auto sp = best.spans;
      std::sort(sp.begin(), sp.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; });
      for (size_t i = 0; i < sp.size() && !spent(); i++) {
        auto &c = best.choices;
        if (sp[i].second > c.size() || sp[i].first >= sp[i].second) continue;
        std::vector<uint64_t> d(c.begin(), c.begin() + sp[i].first);
        d.insert(d.end(), c.begin() + sp[i].second, c.end());
        if (attempt(d)) { progress = true; sp = best.spans; std::sort(sp.begin(), sp.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; }); i = (size_t)-1; if (runs > max_runs / 2) break; }
      }
      // delete chunks
      for (size_t k = 64; k >= 1 && !spent(); k /= 2)
        for (size_t i = 0; i + k <= best.choices.size() && !spent();) {
          std::vector<uint64_t> d(best.choices.begin(), best.choices.begin() + i);
          d.insert(d.end(), best.choices.begin() + i + k, best.choices.end());
          if (attempt(d)) progress = true; else i += k;
          if (best.choices.size() > 400 && k < 8) break;
        }
      // zero runs, then lower single values
      for (size_t k = 16; k >= 1 && !spent(); k /= 4)
        for (size_t i = 0; i < best.choices.size() && !spent(); i += k) {
          auto d = best.choices; bool any = false;
          for (size_t j = i; j < i + k && j < d.size(); j++) { any |= d[j] != 0; d[j] = 0; }
          if (any && attempt(d)) progress = true;
          if (best.choices.size() > 800 && k < 4) break;
        }
      if (best.choices.size() < 300)
        for (size_t i = 0; i < best.choices.size() && !spent(); i++) {
          uint64_t lo = 0;
          while (i < best.choices.size() && lo < best.choices[i] && !spent()) {
            uint64_t mid = lo + (best.choices[i] - lo) / 2;
            auto d = best.choices; d[i] = mid;
            if (attempt(d)) progress = true; else lo = mid + 1;
          }
        }
    }
  }
};

static std::string json_escape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += sfmt("\\u%04x", c); else r += c; }
  return r;
}

int main(int argc, char **argv) {
  bool replaying = false; std::string replay_file, evidence, replay_dir = ".", only_stage, variant = "?", program = "?";
  double cap = 100; g_seed = 1; int workers_max = 8; double scale = 1; std::string trace; uint64_t one = ~0ULL; int guided = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return std::string(argv[++i]); };
    if (a == "--seed") g_seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--evidence") evidence = v();
    else if (a == "--replay-dir") replay_dir = v();
    else if (a == "--replay") { replaying = true; replay_file = v(); }
    else if (a == "--cap") cap = atof(v().c_str());
    else if (a == "--stage") only_stage = v();
    else if (a == "--workers") workers_max = atoi(v().c_str());
    else if (a == "--scale") scale = atof(v().c_str());
    else if (a == "--guided") guided = atoi(v().c_str());
    else if (a == "--program") program = v();
    else if (a == "--variant") variant = v();
    else if (a == "--trace") trace = v();
    else if (a == "--case") one = strtoull(v().c_str(), 0, 10);
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  ref_selftest();
  {
    std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = base + "/urkel-verif-XXXXXX";
    if (!mkdtemp(&t[0])) { perror("mkdtemp"); return 2; }
    scratch = t;
  }
  struct Cleanup { ~Cleanup() { if (chdir("/")) {} rm_tree(scratch); } } cleanup;
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 2;
  auto absp = [&](std::string p) { return p.empty() || p[0] == '/' ? p : std::string(cwd) + "/" + p; };
  replay_dir = absp(replay_dir); evidence = absp(evidence); replay_file = absp(replay_file); trace = absp(trace);
  signal(SIGPIPE, SIG_IGN);
  rshm = new_shm();

  if (replaying) {
    FILE *f = fopen(replay_file.c_str(), "r"); if (!f) { perror(replay_file.c_str()); return 2; }
    char line[1 << 16]; std::string stage; std::vector<uint64_t> ch, idx; uint64_t cseed = 0;
    while (fgets(line, sizeof line, f)) {
      char w[256];
      if (sscanf(line, "stage %255s", w) == 1) stage = w;
      else if (sscanf(line, "caseseed %255s", w) == 1) cseed = strtoull(w, 0, 10);
      else if (sscanf(line, "tier %255s", w) == 1) g_thorough = !strcmp(w, "thorough");
      else if (sscanf(line, "seed %255s", w) == 1) g_seed = strtoull(w, 0, 10);
      else if (!strncmp(line, "index ", 6)) g_cidx = strtoull(line + 6, 0, 10);
      else if (!strncmp(line, "c ", 2)) ch.push_back(strtoull(line + 2, 0, 10));
      else if (!strncmp(line, "case ", 5)) idx.push_back(strtoull(line + 5, 0, 10));
    }
    fclose(f);
    for (auto &sg : the_prop.stages) if (stage == sg.name) {
      CPU_LIMIT = sg.cpu;
      std::string lg = scratch + "/log";
      Outcome o = idx.empty() ? run_choices(sg, ch, cseed, lg.c_str()) : run_indices(sg, idx, lg.c_str());
      fputs(file_head(lg, 1 << 20).c_str(), stdout);
      if (o.failed) { printf("REPRODUCED: %s\n", o.msg.c_str()); return 1; }
      printf("not reproduced\n"); return 0;
    }
    fprintf(stderr, "no stage %s\n", stage.c_str()); return 2;
  }

  double t0 = now(), tcap = t0 + cap;
  Stats total; std::vector<std::string> samples; std::string stage_json; bool capped = false;
  uint64_t planned = 0; std::vector<uint8_t> edges(cov_b - cov_a, 0);
  if (edges.empty()) guided = 0; else if (guided < 0) guided = g_thorough ? 33 : 0;
  double stage_left = 0; for (auto &sg : the_prop.stages) { (void)sg; stage_left++; }

  for (auto &sg : the_prop.stages) {
    CPU_LIMIT = sg.cpu;
    if (!only_stage.empty() && only_stage != sg.name) { stage_left--; continue; }
    uint64_t N = (uint64_t)((g_thorough ? sg.thorough : sg.quick) * scale + 0.5);
    if (N == 0) { stage_left--; continue; }
    planned += N;
    double st0 = now(), scap = now() + (tcap - now()) / stage_left; stage_left--;
    int W = std::min<int>(sg.workers, workers_max); if ((uint64_t)W > N) W = N;
    if (one != ~0ULL) W = 1;
    std::vector<Shm *> shm(W); std::vector<pid_t> pid(W);
    fflush(nullptr);
    for (int w = 0; w < W; w++) {
      shm[w] = new_shm();
      pid[w] = fork();
      if (pid[w] < 0) { perror("fork"); return 2; }
      if (pid[w] == 0) {
        setpgid(0, 0);
        std::string err = scratch + sfmt("/err-%s-%d", sg.name, w);
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
        cur_shm = shm[w];
        signal(SIGPROF, on_prof);
        Stats st; Guide gd;
        for (uint64_t i = w; i < N && !shm[w]->stop; i += W) {
          if (one != ~0ULL) i = one;
          shm[w]->idx = i;
          limit_cpu(CPU_LIMIT);
          uint64_t cs = case_seed(g_seed, the_prop.id, sg.name, i);
          Rng gr(cs ^ 0x67756964); bool mut = one == ~0ULL && guided && gr.next() % 100 < guided && !gd.corpus.empty();
          std::vector<uint64_t> mc; if (mut) { mc = gd.mutant(gr); gd.cases++; }
          Src s = mut ? Src(shm[w], mc.data(), mc.size(), cs) : Src(shm[w], cs);
          gd.before();
          if (!run_case(sg, shm[w], s, st, cs, i, trace.empty() ? nullptr : fopen(trace.c_str(), "w"), g_thorough)) _exit(76);
          gd.after(shm[w], guided);
          shm[w]->n_done = shm[w]->n_done + 1;
          if (one != ~0ULL) break;
        }
        int sfd = open((scratch + sfmt("/stats-%s-%d", sg.name, w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (guided) { st.labels["coverage-guided cases"] += gd.cases; st.labels["coverage-guided corpus entries"] += gd.corpus.size(); }
        put_stats(sfd, st);
        if (!gd.seen.empty()) { FILE *cf = fopen((scratch + sfmt("/cov-%s-%d", sg.name, w)).c_str(), "w"); if (cf) { fwrite(gd.seen.data(), 1, gd.seen.size(), cf); fclose(cf); } }
        _exit(0);
      }
    }
    int live = W, bad = -1, badst = 0; std::vector<double> last(W, now()); std::vector<uint64_t> ld(W, 0);
    bool hung = false;
    while (live) {
      bool any = false;
      for (int w = 0; w < W; w++) {
        if (pid[w] <= 0) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          kill(-pid[w], SIGKILL);
          pid[w] = 0; live--; any = true;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (shm[w]->stop) capped = true; }
          else if (bad < 0) { bad = w; badst = st; for (int x = 0; x < W; x++) shm[x]->stop = 1; }
          continue;
        }
        if (shm[w]->n_done != ld[w]) { ld[w] = shm[w]->n_done; last[w] = now(); }
        else if (now() - last[w] > 60 + 3 * CPU_LIMIT) { hung = true; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); }
      }
      if (now() > scap) for (int x = 0; x < W; x++) shm[x]->stop = 1;
      if (!any) usleep(3000);
    }
    if (bad >= 0) {
      std::string err = scratch + sfmt("/err-%s-%d", sg.name, bad);
      if (WIFEXITED(badst) && WEXITSTATUS(badst) == 2) { fprintf(stderr, "harness error: %s\n", file_head(err, 4000).c_str()); return 2; }
      uint64_t idx = shm[bad]->idx; g_cidx = idx;
      uint64_t cs = case_seed(g_seed, the_prop.id, sg.name, idx);
      std::string msg = shm[bad]->status == 2 ? std::string(shm[bad]->msg) : crash_summary(err, badst);
      fprintf(stderr, "stage %s case %llu: %s\n", sg.name, (unsigned long long)idx, msg.c_str());
      std::vector<uint64_t> ch(shm[bad]->choices, shm[bad]->choices + shm[bad]->n);
      Outcome o; int hits = 0;
      for (int i = 0; i < 3; i++) { Outcome t = run_choices(sg, ch, cs); if (t.failed) { hits++; o = t; if (t.blocked || msg.compare(0, 6, "no end") == 0) { hits = 3; break; } } }
      std::vector<uint64_t> seq;
      if (hits < 3) {
        // perhaps it needs what earlier cases left in the process
        std::vector<uint64_t> all; for (uint64_t i = bad; i <= idx; i += W) all.push_back(i);
        int h2 = 0;
        for (int i = 0; i < 2; i++) { Outcome t = run_indices(sg, all); if (t.failed) { h2++; o = t; } }
        if (h2 == 2) {
          seq = all;
          for (size_t k = seq.size() / 2; k >= 1 && seq.size() > 1; k /= 2) {
            std::vector<uint64_t> tail(seq.end() - std::max<size_t>(1, seq.size() - k), seq.end());
            if (run_indices(sg, tail).failed) seq = tail;
          }
        } else if (hits == 0 && h2 == 0) {
          fprintf(stderr, "not reproduced in 3 replays of the case and 2 of the run: %s\n", hung ? "no progress" : "unexplained");
          total.labels["unreproduced failures"]++;
          for (int w = 0; w < W; w++) munmap(shm[w], sizeof(Shm));
          goto stats;
        }
      }
      {
        if (seq.empty()) {
          bool endless = o.blocked || o.msg.compare(0, 6, "no end") == 0;
          Shrinker sh{sg, cs, o}; if (!endless) sh.run();
          for (int i = 0; i < 3 && !endless; i++) { Outcome t = run_choices(sg, sh.best.choices, cs); if (t.failed) o = t; }
          fprintf(stderr, "shrunk to %zu choices in %d runs\n", o.choices.size(), sh.runs);
          ch = o.choices;
        }
        mkdir(replay_dir.c_str(), 0755);
        uint64_t tag = hash_bytes(ch.data(), ch.size() * 8, hash_bytes(sg.name, strlen(sg.name), 3));
        std::string rp = replay_dir + sfmt("/%s-%016llx.replay", the_prop.id, (unsigned long long)tag);
        FILE *f = fopen(rp.c_str(), "w");
        if (!f) { perror(rp.c_str()); return 2; }
        fprintf(f, "property %s\nprogram %s\nvariant %s\nstage %s\ntier %s\nseed %llu\ncaseseed %llu\nindex %llu\n", the_prop.id, program.c_str(), variant.c_str(), sg.name, g_thorough ? "thorough" : "quick", (unsigned long long)g_seed, (unsigned long long)cs, (unsigned long long)idx);
        std::string m1 = o.msg; for (auto &c : m1) if (c == '\n') c = ' ';
        fprintf(f, "message %s\n", m1.c_str());
        if (seq.empty()) for (auto v : ch) fprintf(f, "c %llu\n", (unsigned long long)v);
        else for (auto v : seq) fprintf(f, "case %llu\n", (unsigned long long)v);
        std::string lg = scratch + "/log";
        if (seq.empty()) run_choices(sg, ch, cs, lg.c_str()); else run_indices(sg, {seq.back()}, lg.c_str());
        std::string t = file_head(lg, 1 << 16); size_t p = 0;
        while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); fprintf(f, "# %s\n", t.substr(p, e - p).c_str()); p = e + 1; }
        fclose(f);
        printf("%s\n", m1.c_str());
        printf("VIOLATION property=%s replay=%s\n", the_prop.id, rp.c_str());
        fflush(stdout);
        if (!evidence.empty()) {
          FILE *e = fopen(evidence.c_str(), "w");
          if (e) {
            fprintf(e, "{\"violation\": \"%s\", \"replay\": \"%s\", \"cases\": %llu, \"wall\": %.2f}\n", json_escape(m1).c_str(), json_escape(rp).c_str(), (unsigned long long)(total.cases + idx / W), now() - t0);
            fclose(e);
          }
        }
        return 1;
      }
    }
  stats:
    Stats sgst;
    for (int w = 0; w < W; w++) { get_stats(scratch + sfmt("/stats-%s-%d", sg.name, w), sgst); }
    for (int w = 0; w < W; w++) { std::string cv = file_head(scratch + sfmt("/cov-%s-%d", sg.name, w), edges.size()); for (size_t i = 0; i < cv.size(); i++) edges[i] |= cv[i]; }
    if (bad < 0) for (int w = 0; w < W; w++) munmap(shm[w], sizeof(Shm));
    total.cases += sgst.cases; total.sub += sgst.sub;
    for (auto &l : sgst.labels) total.labels[l.first] += l.second;
    for (auto h : sgst.nontrivial) total.nontrivial.push_back(hash_bytes(sg.name, strlen(sg.name), h));
    stage_json += sfmt("%s{\"stage\": \"%s\", \"planned\": %llu, \"cases\": %llu, \"nontrivial\": %zu, \"wall_s\": %.2f}", stage_json.empty() ? "" : ", ", sg.name, (unsigned long long)N, (unsigned long long)sgst.cases, sgst.nontrivial.size(), now() - st0);
    // samples: traces of a few cases of this run
    if (one == ~0ULL && !evidence.empty())
      for (uint64_t i : N < 4 ? std::set<uint64_t>() : std::set<uint64_t>{N / 3, (2 * N) / 3}) {
        std::string lg = scratch + "/slog"; unlink(lg.c_str());
        Outcome o = run_indices(sg, {i}, lg.c_str());
        if (o.failed) { fprintf(stderr, "sample %s/%llu failed: %s\n", sg.name, (unsigned long long)i, o.msg.c_str()); continue; }
        std::string t = file_head(lg, 1800);
        samples.push_back(sfmt("stage %s case %llu: ", sg.name, (unsigned long long)i) + t);
      }
  }
  std::sort(total.nontrivial.begin(), total.nontrivial.end());
  size_t distinct = std::unique(total.nontrivial.begin(), total.nontrivial.end()) - total.nontrivial.begin();
  if (getenv("VERIF_EDGES") && !edges.empty()) { FILE *ef = fopen((std::string(getenv("VERIF_EDGES")) + "/" + program).c_str(), "w"); if (ef) { fwrite(edges.data(), 1, edges.size(), ef); fclose(ef); } }
  size_t nedges = 0; for (auto x : edges) nedges += x != 0;
  if (!edges.empty()) { total.labels["edges of the library taken"] = nedges; total.labels["edges of the library"] = edges.size(); }
  printf("%s: %llu cases, %zu distinct non-trivial%s, %.1f s\n", the_prop.id, (unsigned long long)total.cases, distinct, capped ? " (stopped by the time cap)" : "", now() - t0);
  if (!evidence.empty()) {
    FILE *e = fopen(evidence.c_str(), "w");
    if (!e) { perror(evidence.c_str()); return 2; }
    fprintf(e, "{\"evaluations\": %llu, \"sub_evaluations\": %llu, \"distinct_nontrivial\": %zu, \"planned\": %llu, \"capped\": %s, \"rule\": \"%s\",\n \"stages\": [%s],\n \"classes\": {", (unsigned long long)total.cases, (unsigned long long)total.sub, distinct, (unsigned long long)planned, capped ? "true" : "false", json_escape(the_prop.rule).c_str(), stage_json.c_str());
    bool first = true;
    for (auto &l : total.labels) { fprintf(e, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(e, "},\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(e, "%s\"%s\"", i ? ", " : "", json_escape(samples[i]).c_str());
    fprintf(e, "], \"wall\": %.2f}\n", now() - t0);
    fclose(e);
  } else {
    for (auto &l : total.labels) printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  }
  return 0;
}
