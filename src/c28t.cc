// Databases in threads of their own under the race detector.
#include "solo.hh"
using namespace solo;
static void free_threads_stage(Ctx &c) {
  Src &s = c.s; Set t(c, 2 + s.below(3), c.thorough ? 150 : 60);
  free_run(t.among.size(), [&](int i) { t.among[i].run(); });
  t.judge("in its own thread");
  c.nontrivial = t.busy() >= 2;
}
static void stepped(Ctx &c) {
  Src &s = c.s; Set t(c, 2 + s.below(2), 20);
  Plan p; p.fine = 0;
  for (size_t k = 0, n = 2 + s.below(12); k < n; k++) { Span sp(s); p.pre.push_back({1 + (uint32_t)s.below(40), (uint32_t)s.below(6)}); }
  for (int i = 0; i < 10; i++) p.pick.push_back(s.below(6));
  sched_run(p, t.among.size(), [&](int i) { t.among[i].run(); }, [&](int i) { return t.among[i].describe(); });
  t.judge("in its own thread");
  c.nontrivial = t.busy() >= 2 && sched_stats.switches >= 2; c.label("switches", sched_stats.switches);
}
extern const Prop the_prop = {"C28", "under the race detector: at least two of the databases commit", {
  {"races", stepped, 6000, 200000, 8},
  {"free threads", free_threads_stage, 1000, 40000, 3},
}};
