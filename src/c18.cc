#include "conc.hh"
using namespace conc;

extern "C" const char *__tsan_default_options();

// Which error codes can a failing call of this kind have here?
static void codes(Prog &p, bool readers) {
  (void)readers;
  for (int t = 0; t < p.nt; t++) for (size_t i = 0; i < p.ops[t].size(); i++) {
    const COp &o = p.ops[t][i]; const Res &r = p.res[t][i];
    if (!r.ran || r.err == -1) continue;
    if (o.k == ITER || o.k == TITER) { if (r.ok) REQUIRE(r.err == URKEL_EITEREND, "T%d %s ends with %s", t, p.show(o).c_str(), err_name(r.err)); else REQUIRE(r.err == URKEL_ENOTFOUND, "T%d %s fails with %s", t, p.show(o).c_str(), err_name(r.err)); continue; }
    if (r.ok || o.k == ROOT || o.k == TROOT || o.k == TCLEAR || o.k == TDESTROY) continue;
    int want = o.k == INEXT ? URKEL_EITEREND : URKEL_ENOTFOUND;
    REQUIRE(r.err == want, "T%d %s fails with %s, its own failure is %s", t, p.show(o).c_str(), err_name(r.err), err_name(want));
  }
}
static void finish(Ctx &c, Prog &p, bool readers) {
  if (p.shared_it) { api::iter_destroy(p.shared_it); p.shared_it = nullptr; }
  p.release();
  codes(p, readers);
  size_t ov = p.overlaps();
  c.label("overlapping pairs of calls with a change", ov);
  for (int t = 0; t < p.nt; t++) for (size_t i = 0; i < p.ops[t].size(); i++) { c.label(std::string("call ") + kname[p.ops[t][i].k]); if (!p.res[t][i].ok) c.label("failed calls"); }
}
// The detector follows the library's own synchronisation only (the scheduler's
// is invisible to it): two conflicting accesses in one schedule are reported
// even though the threads never really run at the same time.
static void stepped(Ctx &c, bool readers) {
  Limits lim;
  Prog p(c);
  p.setup(readers);
  if (readers) { p.it_map = p.st.tx[0]; p.shared_it = api::iter_create(p.tx[0]); }
  p.gen(readers ? 8 : 7, readers);
  Plan pl = p.gen_plan();
  sched_run(pl, p.nt, [&](int t) { p.body(t); }, [&](int t) { return p.describe(t); });
  c.label("switches", sched_stats.switches);
  bool both = p.nt >= 2; size_t ch = 0;
  for (int t = 0; t < p.nt; t++) for (auto &o : p.ops[t]) ch += Prog::changes(o.k);
  c.nontrivial = both && (ch > 0 || readers);
  finish(c, p, readers);
}
static void calls(Ctx &c) { stepped(c, false); }
static void readers(Ctx &c) { stepped(c, true); }
static void free_threads_stage(Ctx &c) {
  Limits lim;
  Prog p(c);
  bool rd = c.s.chance(1, 3);
  p.setup(rd);
  if (rd) { p.it_map = p.st.tx[0]; p.shared_it = api::iter_create(p.tx[0]); }
  p.gen(c.thorough ? 200 : 80, rd);
  free_run(p.nt, [&](int t) { p.body(t); });
  c.nontrivial = p.overlaps() > 0 || rd;
  finish(c, p, rd);
}
// Two threads fail in different ways; each must read its own code.
static void own_codes(Ctx &c) {
  Src &s = c.s;
  Limits lim; Prog p(c);
  p.setup(false);
  int n = 2 + s.below(2);
  struct Step { int kind; int want; };
  std::vector<std::vector<Step>> st(n);
  for (auto &v : st) { size_t k = 2 + s.below(8); for (size_t i = 0; i < k; i++) { Span sp(s); int kd = s.below(6); v.push_back({kd, 0}); } }
  Plan pl = p.gen_plan();
  H32 unknown = rnd_key(s.seed() + 0x777), absent = rnd_key(s.seed() + 0x999);
  std::string missing = c.dir + "/no/such/place";
  std::vector<std::string> doing(n, "");
  p.nt = n; p.priv.assign(n + 1, nullptr);
  sched_run(pl, n, [&](int t) {
    for (auto &x : st[t]) {
      int e = 0, want = 0; const char *what = "";
      switch (x.kind) {
        case 0: what = "get of an absent key"; doing[t] = what; e = api::get(p.db, absent).err; want = URKEL_ENOTFOUND; break;
        case 1: what = "insert of an oversized value"; doing[t] = what; e = api::tx_insert(p.tx[0], absent, Bytes(VALUE_MAX + 1 + t, 'x')).err; want = URKEL_EINVAL; break;
        case 2: what = "verification of a malformed proof"; doing[t] = what; e = api::verify(Bytes(1 + t, 'z'), absent, unknown).err; want = URKEL_EINVAL; break;
        case 3: what = "begin at an unknown root"; doing[t] = what; { urkel_tx_t *q = api::tx_create(p.db, &unknown, &e); if (q) fail("a transaction at an unknown root"); } want = URKEL_ENOTFOUND; break;
        case 4: what = "open of an impossible path"; doing[t] = what; { urkel_t *q = api::open(missing, &e); if (q) fail("opened %s", missing.c_str()); } want = URKEL_EBADOPEN; break;
        default: what = "verification of a deadend against another root"; doing[t] = what; { Proof pr; e = api::verify(ref_encode(pr), absent, unknown).err; } want = URKEL_EHASHMISMATCH; break;
      }
      if (e != want) fail("%s leaves error code %s to its thread, not %s", what, err_name(e), err_name(want));
    }
  }, [&](int t) { return doing[t]; });
  c.nontrivial = sched_stats.switches > 0;
  c.label("switches", sched_stats.switches);
  p.release();
}

extern const Prop the_prop = {"C18", "stepped calls: at least one call changes something (or an iterator is shared); free threads: overlapping calls with a change; error codes: at least one switch", {
  {"calls", calls, 32000, 1200000, 8},
  {"readers", readers, 9000, 250000, 8},
  {"error codes", own_codes, 6000, 100000, 8},
  {"free threads", free_threads_stage, 1500, 40000, 3},
}};
