// A fixed list of calls with its model, to be run in a child process that may
// be killed at any system call.
#pragma once
#include "world.hh"
#include "util.hh"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

enum SOpKind { SO_OPEN, SO_CLOSE, SO_COMMIT, SO_ONE, SO_INJECT, SO_READ, SO_NOISE, SO_REUSE };
struct SOp { SOpKind k; Changes ch; size_t at; };
struct Script {
  Keys keys;
  std::vector<SOp> ops;
  std::vector<Map> states{Map()};   // states[i]: after the i-th commit
  size_t file_size = 0, open_files = 0, write_buf = 0, read_buf = 0;
  std::vector<H32> roots() const { std::vector<H32> r; for (auto &m : states) r.push_back(ref_root(m)); return r; }
};
inline Script gen_script(Ctx &c, size_t max_ops) {
  Src &s = c.s; Script sc; sc.keys = gen_keys(s, 14);
  Map base; bool open = false; std::vector<Map> known{Map()};
  size_t n = 2 + s.below(max_ops);
  auto add = [&](SOp o) { sc.ops.push_back(o); };
  add({SO_OPEN, {}, 0}); open = true;
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    static const unsigned w[] = {10, 3, 2, 2, 2, 4, 3};
    if (!open) { add({SO_OPEN, {}, 0}); base = sc.states.back(); open = true; }
    switch (s.weighted(w, 7)) {
      case 0: { SOp o{SO_COMMIT, {}, 0}; Map m = base; o.ch = gen_changes(s, sc.keys, m, 12); add(o); base = m; sc.states.push_back(m); break; }
      case 1: { SOp o{SO_ONE, {}, 0}; Map m = base; Changes ch = gen_changes(s, sc.keys, m, 1); if (ch.empty()) break; ch.resize(1); o.ch = ch; m = base; if (ch[0].del) m.erase(ch[0].key); else m[ch[0].key] = ch[0].v; add(o); base = m; sc.states.push_back(m); break; }
      case 2: { SOp o{SO_INJECT, {}, s.below(sc.states.size())}; base = sc.states[o.at]; add(o); break; }
      case 3: add({SO_READ, {}, 0}); break;
      case 4: { SOp o{SO_NOISE, {}, 0}; Map m = base; o.ch = gen_changes(s, sc.keys, m, 8); add(o); break; }
      case 5: add({SO_CLOSE, {}, 0}); open = false; break;
      case 6: { SOp o{SO_REUSE, {}, 0}; Map m = base; o.ch = gen_changes(s, sc.keys, m, 12); add(o); base = m; sc.states.push_back(m); break; }
    }
  }
  if (open) add({SO_CLOSE, {}, 0});
  for (auto &o : sc.ops) {
    static const char *const nm[] = {"open", "close", "commit", "one-shot", "revert", "read", "drop", "commit (kept tx)"};
    c.logf("  %s%s", nm[o.k], o.ch.empty() ? o.k == SO_INJECT ? sfmt(" to state %zu", o.at).c_str() : "" : sfmt(" %zu changes", o.ch.size()).c_str());
  }
  return sc;
}

struct Progress { volatile uint64_t started, committed, calls, killed_at; volatile int unexpected; volatile int phase; char msg[512]; char what[64]; };
inline Progress *new_progress() {
  static Progress *p; // one per process, reused
  static pid_t owner; 
  if (!p || owner != getpid()) { p = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); }
  return p;
}

// Runs the calls. What is not the matter here (a call failing without cause) is noted.
inline void run_script(const Script &sc, const std::string &path, Progress *p) {
  urkel_t *db = nullptr; urkel_tx_t *kept = nullptr; auto roots = sc.roots();
  auto bad = [&](const char *what, int err) { p->unexpected = 1; snprintf(p->msg, sizeof p->msg, "%s: %s", what, err_name(err)); _exit(9); };
  auto apply = [&](urkel_tx_t *t, const Changes &ch) { for (auto &x : ch) { api::R r = x.del ? api::tx_remove(t, x.key) : api::tx_insert(t, x.key, x.v); if (!r.ok) bad("change", r.err); } };
  for (auto &o : sc.ops) {
    switch (o.k) {
      case SO_OPEN: { int e; db = api::open(path, &e); if (!db) bad("open", e); break; }
      case SO_CLOSE: if (kept) { api::tx_destroy(kept); kept = nullptr; } api::close(db); db = nullptr; break;
      case SO_COMMIT: { urkel_tx_t *t = api::tx_create(db); if (!t) bad("begin", 0); apply(t, o.ch); p->started++; api::R r = api::tx_commit(t); if (!r.ok) bad("commit", r.err); p->committed++; api::tx_destroy(t); break; }
      case SO_REUSE: { if (!kept) kept = api::tx_create(db); else api::tx_clear(kept); if (!kept) bad("begin", 0); apply(kept, o.ch); p->started++; api::R r = api::tx_commit(kept); if (!r.ok) bad("commit", r.err); p->committed++; break; }
      case SO_ONE: { p->started++; api::R r = o.ch[0].del ? api::remove(db, o.ch[0].key) : api::insert(db, o.ch[0].key, o.ch[0].v); if (!r.ok) bad("one-shot", r.err); p->committed++; break; }
      case SO_INJECT: { api::R r = api::inject(db, roots[o.at]); if (!r.ok) bad("revert", r.err); break; }
      case SO_READ: { for (auto &k : sc.keys) api::get(db, k); break; }
      case SO_NOISE: { urkel_tx_t *t = api::tx_create(db); if (!t) bad("begin", 0); apply(t, o.ch); api::tx_root(t); api::tx_destroy(t); break; }
    }
  }
}
inline bool mutating(const Call &c) {
  switch (c.sc) {
    case S_OPEN: return c.flags & (O_CREAT | O_TRUNC);
    case S_WRITE: case S_PWRITE: case S_FTRUNCATE: case S_TRUNCATE: case S_UNLINK: case S_RENAME: case S_MKDIR: case S_RMDIR: return true;
    default: return false;
  }
}
