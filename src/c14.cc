#include "world.hh"
#include "util.hh"
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>

// Several processes, of which one runs at a time: each stops before every
// system call of the library and before and after every call, and the parent
// says who goes on.
enum { P_OPEN, P_COMMIT, P_READ, P_CLOSE, P_DESTROY, P_END };
static const char *const pname[] = {"open", "commit", "read", "close", "destroy", "end"};
enum { EV_NONE, EV_BEGIN, EV_SYS, EV_DONE };
struct POp { int k; H32 key; Bytes v; };
static const int MAXP = 5;
struct Proc {
  volatile int go, yielded;      // futexes: turns given, turns handed back
  volatile int ev, op, ok, err, bad;
  volatile int sys, idx;
  unsigned char root[32], root2[32];
  char file[32]; char msg[256];
};
struct Board { Proc p[MAXP]; };
static Board *board; static Proc *me;
static void fwait(volatile int *a, int v, long ms) { timespec t{ms / 1000, (ms % 1000) * 1000000}; syscall(SYS_futex, a, FUTEX_WAIT, v, &t, nullptr, 0); }
static void fwake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE, 16, nullptr, nullptr, 0); }
static void yield_turn(int ev) {
  int g = me->go; me->ev = ev; __atomic_add_fetch(&me->yielded, 1, __ATOMIC_SEQ_CST); fwake(&me->yielded);
  while (__atomic_load_n(&me->go, __ATOMIC_SEQ_CST) == g) fwait(&me->go, g, 1000);
}
static Action child_policy(const Call &c) {
  switch (c.sc) { case S_READ: case S_PREAD: case S_MMAP: case S_MUNMAP: case S_FSTAT: case S_GETCWD: case S_READDIR: case S_CLOSEDIR: case S_LSEEK: case S_FSYNC: return {Action::PASS, 0, 0}; default: break; }
  if (!strcmp(c.file, "@rand") || !strcmp(c.file, "urandom")) return {Action::PASS, 0, 0};
  me->sys = c.sc; snprintf(me->file, sizeof me->file, "%s", c.file); yield_turn(EV_SYS); return {Action::PASS, 0, 0};
}
[[noreturn]] static void child(const std::string &path, const std::vector<POp> &ops) {
  urkel_t *db = nullptr; sys_policy = child_policy;
  for (size_t oi = 0; oi < ops.size(); oi++) {
    const POp &o = ops[oi];
    if ((o.k == P_COMMIT || o.k == P_READ || o.k == P_CLOSE) && !db) continue; // nothing to do it with
    me->op = o.k; me->idx = oi; yield_turn(EV_BEGIN); me->err = 0; me->bad = 0;
    switch (o.k) {
      case P_OPEN: { int e; db = api::open(path, &e); me->ok = db != nullptr; me->err = e; sys_policy = nullptr; if (db) { H32 r = api::root(db); memcpy(me->root, r.data(), 32); } sys_policy = child_policy; break; }
      case P_COMMIT: {
        api::R r; r = api::insert(db, o.key, o.v); me->ok = r.ok; me->err = r.err;
        if (r.ok) { sys_policy = nullptr; H32 h = api::root(db); memcpy(me->root, h.data(), 32); sys_policy = child_policy; }
        break; }
      case P_READ: { api::RV r = api::get(db, o.key); me->ok = r.ok; me->err = r.err; H32 h = api::root(db); memcpy(me->root, h.data(), 32); break; }
      case P_CLOSE: api::close(db); db = nullptr; me->ok = 1; break;
      case P_DESTROY: { api::R r = api::destroy(path); me->ok = r.ok; me->err = r.err; break; }
    }
    yield_turn(EV_DONE);
  }
  _exit(0);
}

struct Pr { pid_t pid = 0; bool alive = false, owner = false, closing = false; int in = P_END; bool overlapped = false; bool owned_all = false, opened_during = false; std::vector<POp> ops; int started = 0; };
struct Sim {
  Ctx &c; std::string path; std::vector<Pr> pr; std::vector<Map> allowed{Map()}; Map cur; Map next; bool maybe_empty = false;
  unsigned opens = 0, refused = 0, kills = 0, commits = 0, switches = 0, destroys = 0;
  Sim(Ctx &c_) : c(c_), path(c_.dir + "/db") {}
  ~Sim() { for (auto &p : pr) if (p.pid > 0) { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } }
  void spawn(size_t i) {
    memset((void *)&board->p[i], 0, sizeof(Proc)); fflush(nullptr);
    pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) { me = &board->p[i]; while (!me->go) fwait(&me->go, 0, 1000); child(path, pr[i].ops); }
    pr[i].pid = pid; pr[i].alive = true;
  }
  Pr *owner() { for (auto &p : pr) if (p.owner) return &p; return nullptr; }
  bool busy(int k, size_t but) { for (size_t i = 0; i < pr.size(); i++) if (i != but && pr[i].in == k) return true; return false; }
  // someone else has, or is trying to have, the database
  bool others(size_t i) { for (size_t j = 0; j < pr.size(); j++) if (j != i && (pr[j].owner || pr[j].in == P_OPEN || pr[j].in == P_CLOSE || pr[j].in == P_DESTROY)) return true; return false; }
  void touch() { for (size_t i = 0; i < pr.size(); i++) if ((pr[i].in == P_OPEN || pr[i].in == P_DESTROY) && others(i)) pr[i].overlapped = true; for (auto &p : pr) if (p.in == P_DESTROY && !owner()) p.owned_all = false; }
  // Let process i run to its next stop. False: it has ended.
  bool step(size_t i) {
    Pr &p = pr[i]; Proc &q = board->p[i]; int y = q.yielded; __atomic_add_fetch(&q.go, 1, __ATOMIC_SEQ_CST); fwake(&q.go);
    for (int w = 0;; w++) {
      if (__atomic_load_n(&q.yielded, __ATOMIC_SEQ_CST) != y) break;
      int st; pid_t r = waitpid(p.pid, &st, WNOHANG);
      if (r == p.pid) { p.pid = 0; p.alive = false; if (q.yielded != y) break; if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (p.owner) { p.owner = false; if (busy(P_DESTROY, i)) maybe_empty = true; } p.in = P_END; touch(); return false; } fail("process %zu ends by itself in %s (status %x)", i, pname[p.in], st); }
      fwait(&q.yielded, y, w < 50 ? 2 : 200);
      if (w > 400) fail("process %zu does not come back from %s: it waits instead of giving up", i, pname[p.in]);
    }
    event(i); return true;
  }
  void event(size_t i) {
    Pr &p = pr[i]; Proc &q = board->p[i];
    if (q.ev == EV_SYS) { c.logf("  p%zu %s: %s %s", i, pname[p.in], sc_name[q.sys], q.file); return; }
    if (q.ev == EV_BEGIN) {
      c.logf("p%zu %s", i, pname[q.op]); p.in = q.op; p.overlapped = p.opened_during = false; p.owned_all = owner() != nullptr;
      if (q.op == P_CLOSE) { p.owner = false; if (busy(P_DESTROY, i)) maybe_empty = true; }
      if (q.op == P_DESTROY) { if (!owner()) maybe_empty = true; destroys++; }
      if (q.op == P_COMMIT) { next = cur; next[p.ops[q.idx].key] = p.ops[q.idx].v; }
      touch(); return;
    }
    c.logf("p%zu %s: %s", i, pname[q.op], q.ok ? "ok" : err_name(q.err)); p.in = P_END;
    H32 root; memcpy(root.data(), q.root, 32);
    switch (q.op) {
      case P_OPEN:
        if (!q.ok) { refused++; REQUIRE(q.err == URKEL_EBADOPEN, "p%zu: a refused open reports %s", i, err_name(q.err)); REQUIRE(p.overlapped, "p%zu: open fails though no other process had anything to do with the database at that time", i); break; }
        opens++;
        for (size_t j = 0; j < pr.size(); j++) REQUIRE(!pr[j].owner, "p%zu opens the database while p%zu has it open", i, j);
        p.owner = true;
        { bool ok = false; for (auto &m : allowed) if (ref_root(m) == root) { cur = m; ok = true; break; } if (!ok && maybe_empty && root == H32{}) { cur.clear(); ok = true; } REQUIRE(ok, "p%zu opens the database and sees %s instead of the last commit (%zu records)", i, root == H32{} ? "nothing" : "another state", allowed[0].size()); allowed = {cur}; maybe_empty = false; }
        for (size_t j = 0; j < pr.size(); j++) if (j != i && pr[j].in == P_DESTROY) { pr[j].owned_all = false; pr[j].opened_during = true; }
        break;
      case P_COMMIT: REQUIRE(q.ok, "p%zu owns the database and its commit fails with %s", i, err_name(q.err)); cur = next; allowed = {cur}; commits++; REQUIRE(root == ref_root(cur), "p%zu: after its commit the root is not that of its records", i); break;
      case P_READ: REQUIRE(root == ref_root(cur), "p%zu owns the database and its root changes", i); REQUIRE(q.ok ? !!cur.count(p.ops[q.idx].key) : !cur.count(p.ops[q.idx].key) && q.err == URKEL_ENOTFOUND, "p%zu: get fails with %s", i, err_name(q.err)); break;
      case P_CLOSE: break;
      case P_DESTROY:
        if (q.ok) { REQUIRE(!p.owned_all, "p%zu destroys the database while another process has it open", i); if (!p.opened_during) allowed = {Map()}; if (!p.overlapped) REQUIRE(!exists(path), "destroyed, but %s is still there", path.c_str()); }
        else { REQUIRE(q.err == URKEL_EBADOPEN, "p%zu: a refused destroy reports %s", i, err_name(q.err)); if (p.owned_all) REQUIRE(exists(path), "p%zu: a refused destroy removed the database in use", i); }
        break;
    }
    touch();
  }
  void kill_one(size_t i) {
    Pr &p = pr[i]; kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); p.pid = 0; p.alive = false; kills++;
    c.logf("p%zu KILLED in %s", i, pname[p.in]);
    if (p.in == P_COMMIT) { allowed = {cur, next}; }
    if (p.owner) { p.owner = false; if (busy(P_DESTROY, i)) maybe_empty = true; }
    p.in = P_END; touch();
  }
};

static void procs_stage(Ctx &c) {
  Src &s = c.s;
  if (!board) board = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Sim m(c); Keys keys = gen_keys(s, 6, 0);
  if (s.chance(1, 2)) { int e; urkel_t *db = api::open(m.path, &e); if (!db) throw Skip{"open"}; Map b; for (size_t i = 0, n = s.below(3); i < n; i++) { b[keys[i % keys.size()]] = Bytes(3, 'a' + i); if (!api::insert(db, keys[i % keys.size()], Bytes(3, 'a' + i)).ok) throw Skip{"insert"}; } api::close(db); m.allowed = {b}; c.logf("a database with %zu records", b.size()); }
  size_t np = 2 + s.below(c.thorough ? 4 : 3); bool kills = s.chance(1, 2), destroys = s.chance(1, 3); unsigned sw = s.pickl({1, 2, 5, 12}); unsigned serial = 0;
  m.pr.resize(np);
  for (auto &p : m.pr) {
    size_t sess = 1 + s.below(3);
    for (size_t q = 0; q < sess; q++) {
      Span sp(s);
      if (destroys && s.chance(1, 3)) { p.ops.push_back({P_DESTROY, {}, ""}); continue; }
      p.ops.push_back({P_OPEN, {}, ""});
      for (size_t k = 0, n = s.below(3); k < n; k++) { bool rd = s.chance(1, 3); p.ops.push_back({rd ? P_READ : P_COMMIT, keys[s.below(keys.size())], sfmt("v%u", ++serial)}); }
      if (!(q + 1 == sess && s.chance(1, 4))) p.ops.push_back({P_CLOSE, {}, ""});
      else break;
    }
  }
  for (size_t i = 0; i < np; i++) m.spawn(i);
  size_t at = 0, left = np;
  for (unsigned n = 0; left && n < 20000; n++) {
    Span sp(s);
    if (!m.pr[at].alive || s.below(sw) == sw - 1) { size_t k = s.below(left); for (size_t i = 0; i < np; i++) if (m.pr[i].alive && k-- == 0) { if (i != at) m.switches++; at = i; break; } }
    if (kills && m.pr[at].in != P_DESTROY && m.pr[at].in != P_END && s.chance(1, 50)) { m.kill_one(at); left--; continue; }
    if (!m.step(at)) left--;
  }
  int e; urkel_t *db = api::open(m.path, &e); REQUIRE(db, "when all processes are gone, open fails with %s", err_name(e));
  H32 r = api::root(db); bool ok = m.maybe_empty && r == H32{}; for (auto &x : m.allowed) if (ref_root(x) == r) ok = true;
  REQUIRE(ok, "when all processes are gone, the database shows %s instead of the last commit", r == H32{} ? "nothing" : "another state");
  api::close(db);
  c.label("opens that succeeded", m.opens); c.label("opens that were refused", m.refused); c.label("processes killed", m.kills); c.label("commits", m.commits); c.label("destroys", m.destroys); c.label("switches between processes", m.switches);
  c.nontrivial = m.opens >= 1 && m.refused >= 1;
}
static void stage(Ctx &c) { judged(c, [&] { procs_stage(c); }); }
const Prop the_prop = {"C14", "two to five processes, at least one open that succeeded and one that was refused", {{"processes", stage, 9000, 300000, 8}}};
