#include "conc.hh"
using namespace conc;

static void run(Ctx &c, bool readers) {
  Limits lim;
  Prog p(c);
  p.setup(readers);
  if (readers) { p.it_map = p.st.tx[0]; p.shared_it = api::iter_create(p.tx[0]); }
  p.gen(readers ? 6 : c.s.chance(1, 3) ? 2 : 5, readers);
  Plan pl = p.gen_plan();
  sched_run(pl, p.nt, [&](int t) { p.body(t); }, [&](int t) { return p.describe(t); });
  c.logf("%llu points, %llu switches", (unsigned long long)sched_stats.points, (unsigned long long)sched_stats.switches);
  for (int t = 0; t < p.nt; t++) for (size_t i = 0; i < p.ops[t].size(); i++) c.logf("  T%d: %s -> %s", t, p.show(p.ops[t][i]).c_str(), p.show(p.res[t][i]).c_str());
  if (p.shared_it) { api::iter_destroy(p.shared_it); p.shared_it = nullptr; }
  p.finish();
  p.release();
  p.want_durable = p.reopened_root(); p.check_durable = true;
  size_t ov = p.overlaps();
  p.judge();
  c.nontrivial = readers ? sched_stats.switches >= 2 : ov > 0;
  c.label("scheduling points", sched_stats.points); c.label("switches", sched_stats.switches);
  c.label("overlapping pairs of calls with a change", ov);
  if (sched_stats.blocks) c.label("cases in which a thread had to wait or ended");
  for (int t = 0; t < p.nt; t++) for (size_t i = 0; i < p.ops[t].size(); i++) c.label(std::string("call ") + kname[p.ops[t][i].k]);
}
static void calls(Ctx &c) { run(c, false); }
static void readers(Ctx &c) { run(c, true); }

extern const Prop the_prop = {"C17", "the calls of two threads overlapped in time and one of the two changed something (shared iterators: at least two switches between threads)", {
  {"calls", calls, 60000, 2500000, 8},
  {"readers", readers, 15000, 500000, 8},
}};
