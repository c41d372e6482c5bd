#include "mem.hh"
#include "conc.hh"

static void calls(Ctx &c) {
  Limits lim; gen_limits(c, 1, 2);
  mem::Driver d(c, true);
  d.run(20 + c.s.below(c.thorough ? 250 : 120), c.s.chance(1, 4) ? 2 : 1);
}
static void short_calls(Ctx &c) {
  Limits lim; gen_limits(c, 1, 3);
  mem::Driver d(c, true);
  d.run(3 + c.s.below(25), 1);
}
// The same for calls of several threads, one schedule after the other.
static void threads(Ctx &c) {
  Limits lim; conc::Prog p(c);
  track_memory = true; lib_accounting_reset();
  struct Off { ~Off() { track_memory = false; } } off;
  int f0 = lib_fds(), m0 = lib_maps();
  bool rd = c.s.chance(1, 4);
  p.setup(rd);
  if (rd) { p.it_map = p.st.tx[0]; p.shared_it = api::iter_create(p.tx[0]); }
  p.gen(rd ? 8 : 6, rd);
  Plan pl = p.gen_plan();
  sched_run(pl, p.nt, [&](int t) { p.body(t); }, [&](int t) { return p.describe(t); });
  p.release();
  REQUIRE(lib_blocks() == 0, "after calls of several threads everything is released, but %zu allocations remain (sizes%s)", lib_blocks(), lib_blocks_sizes().c_str());
  REQUIRE(lib_fds() == f0, "after calls of several threads everything is released, but %d file descriptors remain", lib_fds() - f0);
  REQUIRE(lib_maps() == m0, "after calls of several threads everything is released, but %d mappings remain", lib_maps() - m0);
  c.nontrivial = sched_stats.switches >= 1;
  c.label("switches", sched_stats.switches);
}
extern const Prop the_prop = {"C19", "the sequence opened a database, committed, and contained at least one failing call; threads: the schedule switched between threads", {
  {"sequences", calls, 20000, 500000, 8},
  {"short sequences", short_calls, 20000, 400000, 8},
  {"threads", threads, 24000, 600000, 8},
}};
