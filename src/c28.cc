#include "solo.hh"
using namespace solo;

// One thread, several databases open at the same time.
static void taking_turns(Ctx &c) {
  Src &s = c.s; Set t(c, 2 + s.below(3), c.thorough ? 120 : 50);
  size_t sw = 0, last = 99, asked = 0, locks = 0;
  for (;;) {
    std::vector<size_t> v; for (size_t i = 0; i < t.among.size(); i++) if (!t.among[i].done()) v.push_back(i);
    if (v.empty()) break;
    Span sp(s); size_t i = v[s.below(v.size())]; if (i != last) sw++; last = i;
    for (size_t k = 0, n = 1 + s.small(8); k < n && !t.among[i].done(); k++) t.among[i].step();
    Player &p = t.among[i];
    if (p.db && s.chance(1, 60)) { // still locked against other processes
      fflush(nullptr); pid_t pid = fork(); if (!pid) { int e; urkel_t *x = api::open(p.path, &e); _exit(x ? 7 : e == URKEL_EBADOPEN ? 0 : 8); }
      int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} locks++;
      REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "database %zu is open, but another process %s", i, WIFEXITED(st) && WEXITSTATUS(st) == 7 ? "opens it as well" : "is refused in another way");
    }
    if (p.db && !p.it && s.chance(1, 8)) { // a root that only another database has
      const Player &q = t.alone[s.below(t.alone.size())]; if (q.roots.empty()) continue;
      H32 r = q.roots[s.below(q.roots.size())]; if (std::count(p.roots.begin(), p.roots.end(), r) || r == H32{}) continue;
      if (std::count(t.alone[i].roots.begin(), t.alone[i].roots.end(), r)) continue;
      int e; urkel_tx_t *x = api::tx_create(p.db, &r, &e); asked++;
      REQUIRE(!x && e == URKEL_ENOTFOUND, "database %zu knows the root %s of another database (%s)", i, shx(r).c_str(), x ? "opened" : err_name(e));
    }
  }
  t.judge("among the others");
  c.nontrivial = t.busy() >= 2 && sw >= 3; c.label("switches between databases", sw); c.label("locks tried from another process", locks); c.label("roots of other databases asked for", asked);
}
// A thread for each database, one schedule after the other.
static void threads(Ctx &c) {
  Src &s = c.s; Set t(c, 2 + s.below(2), c.thorough ? 40 : 20);
  Plan p; p.fine = s.below(3);
  uint32_t sc = p.fine == 2 ? s.pickl({50, 400, 3000, 20000}) : p.fine ? s.pickl({20, 150, 1000, 5000}) : s.pickl({3, 10, 40, 120});
  for (size_t k = 0, n = 2 + s.below(12); k < n; k++) { Span sp(s); p.pre.push_back({1 + (uint32_t)s.below(sc), (uint32_t)s.below(6)}); }
  for (int i = 0; i < 10; i++) p.pick.push_back(s.below(6));
  sched_run(p, t.among.size(), [&](int i) { t.among[i].run(); }, [&](int i) { return t.among[i].describe(); });
  t.judge("in its own thread");
  c.nontrivial = t.busy() >= 2 && sched_stats.switches >= 2; c.label("switches", sched_stats.switches);
}
extern const Prop the_prop = {"C28", "at least two of the databases commit, and at least three (threads: two) switches between databases happen", {
  {"taking turns", taking_turns, 14000, 900000, 8},
  {"threads", threads, 12000, 500000, 8},
}};
