// The same sequences under valgrind, which sees every use of an uninitialised
// value (also in what is written to files).
#include "mem.hh"

static void calls(Ctx &c) {
  Limits lim; gen_limits(c, 1, 2);
  mem::Driver d(c, false);
  d.run(20 + c.s.below(c.thorough ? 120 : 60), 1);
}
extern const Prop the_prop = {"C19", "the sequence opened a database, committed, and contained at least one failing call", {
  {"memcheck", calls, 4000, 120000, 8, 250},
}};
