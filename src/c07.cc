#include "large.hh"

static void unknown_roots(World &w) {
  Src &s = w.s;
  // roots that no commit ever had: random, nearly right, buffered, of parts of the tree
  std::vector<std::pair<const char *, H32>> u;
  u.push_back({"random", rnd_key(s.seed() + 99)});
  if (w.order.size()) { H32 h = w.order[s.below(w.order.size())]; h[s.below(32)] ^= 1 << s.below(8); u.push_back({"one bit off", h}); }
  { H32 h{}; h[s.below(32)] = 1 << s.below(8); u.push_back({"almost empty", h}); }
  for (auto &t : w.txs) u.push_back({"buffered", ref_root(t.m)});
  if (w.base.size() >= 2) {
    Map half; size_t i = 0; int b = key_bit(w.base.begin()->first, 0);
    for (auto &kv : w.base) if (key_bit(kv.first, 0) == b || i++ == 0) half[kv.first] = kv.second;
    u.push_back({"of a part of the records", ref_root(half)});
    u.push_back({"of a leaf", ref_leaf(w.base.begin()->first, w.base.begin()->second)});
    Proof p = ref_prove(w.base, w.base.begin()->first); if (p.nodes.size()) u.push_back({"of a subtree", p.nodes[s.below(p.nodes.size())].hash});
  }
  for (auto &x : u) {
    if (w.hist.count(x.second)) continue;
    bool ever = false; for (auto &o : w.order) if (o == x.second) ever = true;
    if (ever) continue;
    int e; w.c.logf("unknown root (%s) %s", x.first, shx(x.second).c_str());
    urkel_tx_t *t = api::tx_create(w.db, &x.second, &e);
    w.chk(A_HIST, t == nullptr, "a root that was never committed (%s) is opened as a snapshot", x.first);
    w.chk(A_HIST, e == URKEL_ENOTFOUND, "a root that was never committed (%s) gives %s", x.first, err_name(e));
    if (s.chance(1, 3)) { api::RV r = api::get(w.db, w.keys[0], &x.second); w.chk(A_HIST, !r.ok && r.err == URKEL_ENOTFOUND, "urkel_get at an unknown root: %d %s", r.ok, err_name(r.err)); }
    if (s.chance(1, 3)) { api::R r = api::inject(w.db, x.second); w.chk(A_HIST, !r.ok && r.err == URKEL_ENOTFOUND, "urkel_inject of an unknown root: %d %s", r.ok, err_name(r.err)); }
    if (s.chance(1, 3) && w.txs.size()) { api::R r = api::tx_inject(w.txs[0].tx, x.second); w.chk(A_HIST, !r.ok && r.err == URKEL_ENOTFOUND, "urkel_tx_inject of an unknown root: %d %s", r.ok, err_name(r.err)); }
    w.c.label("unknown roots tried");
  }
}

static void world_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_HIST | A_REOPEN); w.limits(1, 2);
    w.keys = gen_keys(c.s, 40);
    w.open();
    w.w[O_TX_AT] = 10; w.w[O_COMMIT] = 14; w.w[O_TX_INJECT] = 4; w.w[O_INJECT] = 3; w.w[O_ONE_GET] = 8; w.w[O_ONE_PROVE] = 4; w.w[O_ONE_ITER] = 4; w.w[O_ONE_HAS] = 3; w.w[O_REOPEN] = 4; w.w[O_GET] = 3; w.w[O_BAD] = 3;
    w.max_hist = 1000;
    size_t steps = 10 + c.s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) { w.step(); if (i % 20 == 19) unknown_roots(w); }
    unknown_roots(w);
    for (auto &h : w.hist) w.full_root(A_HIST, "snapshot", h.first, h.second);
    w.reopen();
    unknown_roots(w);
    Keys order(w.order); uint64_t sd = c.s.seed(); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[mix64(sd + i) % i]);
    for (auto &r : order) w.full_root(A_HIST, "snapshot after reopening", r, w.hist[r]);
    c.nontrivial = w.hist.size() >= 4; c.label("snapshots compared in full", w.n.snapshots);
    c.label(sfmt("cases with %zu+ roots", w.hist.size() / 16 * 16));
    w.close();
  });
}
// Long chains of small commits; lookups in any order, before and after reopening.
static void chain_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_HIST | A_REOPEN); w.limits(1, 2);
    if (s.chance(1, 3)) { urkel_verif_max_file_size = s.range(1023, 1100); c.logf("files of at most %zu bytes", urkel_verif_max_file_size); }
    w.keys = gen_keys(s, 24); w.max_hist = 100000;
    w.open();
    size_t n = 20 + s.below(c.thorough ? 600 : 200); uint64_t sd = s.seed();
    w.tx_open();
    for (size_t i = 0; i < n; i++) {
      uint64_t r = mix64(sd + i); const H32 &k = w.keys[r % w.keys.size()];
      if ((r >> 20) % 3 == 0 && w.txs[0].m.count(k)) w.do_remove(w.txs[0], k); else w.do_insert(w.txs[0], k, mk_value((r >> 24) % 6, (r >> 32) % 64));
      w.do_commit(0);
      if ((r >> 40) % 50 == 0) { w.reopen(); w.tx_open(); }
      if ((r >> 48) % 40 == 0 && w.order.size() > 2) { H32 t = w.order[(r >> 10) % w.order.size()]; api::R x = api::inject(w.db, t); w.chk(A_HIST, x.ok, "revert to a committed root: %s", err_name(x.err)); w.base = w.hist[t]; api::tx_clear(w.txs[0].tx); w.txs[0].m = w.base; w.n.reverts++; }
    }
    if (s.chance(2, 3)) { w.reopen(); c.logf("reopened after %zu commits", n); }
    unsigned look = 8 + s.below(40);
    for (unsigned i = 0; i < look; i++) {
      Span sp(s);
      if (s.chance(1, 8)) { H32 u = rnd_key(s.seed() + 3); int e; urkel_tx_t *t = api::tx_create(w.db, &u, &e); w.chk(A_HIST, !t && e == URKEL_ENOTFOUND, "unknown root: %p %s", (void *)t, err_name(e)); continue; }
      H32 r = w.some_root(); c.logf("look at %s", shx(r).c_str()); w.full_root(A_HIST, "snapshot", r, w.hist[r]);
    }
    if (s.chance(1, 2)) for (auto &h : w.hist) { H32 k = w.keys[0]; w.chk_get(A_HIST, "urkel_get at a root", api::get(w.db, k, &h.first), h.second, k); }
    c.nontrivial = w.order.size() >= 15; c.label("snapshots compared in full", w.n.snapshots); c.label("commits in chains", w.n.commits);
    w.close();
  });
}
static void large_stage(Ctx &c) { large::run(c, A_HIST); }
const Prop the_prop = {"C07", "world: at least four distinct roots in the history; chain: at least 15 distinct roots; large: at least 1000 keys and a commit",
  {{"world", world_stage, 17500, 1500000, 8}, {"chain", chain_stage, 2000, 150000, 8}, {"large", large_stage, 64, 4000, 8}}};
