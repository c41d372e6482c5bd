#include "large.hh"

static void views_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_ITER | A_REOPEN | A_HIST); w.limits();
    w.keys = gen_keys(s, s.chance(1, 4) ? 270 : 60);
    w.open();
    unsigned rounds = 1 + s.below(4); bool mixed = false; size_t biggest = 0;
    auto look = [&](const char *what, urkel_tx_t *tx, const Map &m) {
      Span sp(s);
      w.chk_iter(A_ITER, what, api::iter_create(tx), m, s.chance(1, 4), s.chance(1, 3) ? tx : nullptr);
      if (s.chance(1, 3)) w.chk_iter(A_ITER, what, api::iter_create(tx), m, false, nullptr, true);
      if (s.chance(1, 4)) { // two iterators of one view, taking turns
        urkel_iter_t *a = api::iter_create(tx), *b = api::iter_create(tx); auto ia = m.begin(), ib = m.begin(); uint64_t r = s.seed();
        for (size_t i = 0; i < 2 * m.size() + 4; i++) {
          bool first = mix64(r + i) & 1; auto &it = first ? ia : ib;
          api::It x = api::iter_next(first ? a : b);
          if (it == m.end()) w.chk(A_ITER, !x.ok && x.err == URKEL_EITEREND, "%s: interleaved iterators: %d, %s at the end", what, x.ok, err_name(x.err));
          else { w.chk(A_ITER, x.ok && x.key == it->first && x.v == it->second, "%s: interleaved iterators: ok %d key %s (%zu bytes), expected %s (%zu bytes)", what, x.ok, kx(x.key).c_str(), x.v.size(), kx(it->first).c_str(), it->second.size()); ++it; }
        }
        api::iter_destroy(a); api::iter_destroy(b); w.n.iters += 2;
      }
      biggest = std::max(biggest, m.size());
    };
    for (unsigned r = 0; r < rounds; r++) {
      Span sp(s);
      if (w.txs.empty()) w.tx_open();
      Changes cs; { Map m = w.txs[0].m; cs = gen_changes(s, w.keys, m, w.keys.size() * 2, r ? 35 : 10); }
      for (auto &x : cs) if (x.del) w.do_remove(w.txs[0], x.key); else w.do_insert(w.txs[0], x.key, x.v);
      if (r && !cs.empty()) mixed = true;
      if (s.chance(1, 4)) { while (!w.txs[0].m.empty()) w.do_remove(w.txs[0], H32(w.txs[0].m.begin()->first)); c.label("emptied views"); look("iterate an emptied view", w.txs[0].tx, w.txs[0].m); for (auto &x : cs) if (!x.del) w.do_insert(w.txs[0], x.key, x.v); }
      c.logf("buffered view, %zu records", w.txs[0].m.size()); look("iterate a buffered view", w.txs[0].tx, w.txs[0].m);
      w.do_commit(0); c.logf("committed view"); look("iterate a committed view", w.txs[0].tx, w.txs[0].m);
      if (s.chance(1, 2)) { c.logf("reopen"); w.reopen(); w.tx_open(); look("iterate after reopening", w.txs[0].tx, w.txs[0].m); }
    }
    for (auto &h : w.hist) w.chk_iter(A_ITER, "urkel_iterate at a root", api::iterate(w.db, &h.first), h.second, s.chance(1, 4), nullptr, s.chance(1, 4));
    w.chk_iter(A_ITER, "urkel_iterate", api::iterate(w.db), w.base);
    c.nontrivial = biggest >= 3 && w.n.iters >= 3;
    c.label("iterations", w.n.iters); if (mixed) c.label("cases with views of stored and buffered nodes"); if (biggest >= 64) c.label("cases with 64+ records in a view");
    w.close();
  });
}
// Depth: keys that part at every one of many depths, all on one path.
static void deep_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_ITER | A_REOPEN); w.limits();
    H32 base = s.chance(1, 3) ? H32{} : rnd_key(s.seed()); if (s.chance(1, 6)) base.fill(0xff);
    w.keys.push_back(base);
    unsigned lo = s.chance(1, 2) ? 0 : s.below(256), n = 1 + s.below(256), pat = s.below(3);
    uint64_t sd = s.seed();
    for (unsigned i = lo; i < 256 && i < lo + n; i++) { if (pat == 1 && (mix64(sd + i) & 1)) continue; H32 h = base; key_set(h, i, !key_bit(h, i)); if (pat == 2) { H32 t = rnd_key(sd + i); for (unsigned q = i + 1; q < 256; q++) key_set(h, q, key_bit(t, q)); } w.keys.push_back(h); }
    w.open(); w.tx_open();
    for (auto &k : w.keys) w.do_insert(w.txs[0], k, mk_value(mix64(sd + k[31]) % 8, 7));
    unsigned mode = s.below(3);
    if (mode >= 1) w.do_commit(0);
    if (mode == 2) { w.reopen(); w.tx_open(); }
    if (mode >= 1 && s.chance(1, 2)) { size_t k = s.small(w.keys.size()); for (size_t i = 0; i < k; i++) { const H32 &x = w.keys[mix64(sd + i) % w.keys.size()]; if (i & 1) w.do_insert(w.txs[0], x, "new"); else w.do_remove(w.txs[0], x); } c.label("deep mixed views"); }
    c.logf("%zu records, depth up to %u", w.txs[0].m.size(), std::min(256u, lo + n));
    w.chk_iter(A_ITER, "iterate a deep tree", api::iter_create(w.txs[0].tx), w.txs[0].m, s.chance(1, 4), s.chance(1, 4) ? w.txs[0].tx : nullptr);
    w.chk_iter(A_ITER, "iterate a deep tree", api::iter_create(w.txs[0].tx), w.txs[0].m, false, nullptr, true);
    if (mode) w.chk_iter(A_ITER, "urkel_iterate a deep tree", api::iterate(w.db), w.base);
    c.nontrivial = w.keys.size() >= 20;
    c.label(sfmt("deep trees of %zu+ levels", w.keys.size() / 64 * 64));
    w.close();
  });
}
static void world_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_ITER); w.limits();
    w.keys = gen_keys(c.s, 60);
    w.open();
    w.w[O_ITER] = 20; w.w[O_ONE_ITER] = 10; w.w[O_GET] = 2; w.w[O_PROVE] = w.w[O_ONE_PROVE] = 1; w.w[O_REMOVE_ALL] = 2;
    size_t steps = 5 + c.s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    c.nontrivial = w.n.iters >= 3 && w.n.inserts >= 3 && w.n.commits >= 1;
    c.label("iterations", w.n.iters);
    w.close();
  });
}
static void large_stage(Ctx &c) { large::run(c, A_ITER); }
const Prop the_prop = {"C06", "views: at least three iterations and a view of three records; deep: at least 20 keys on one path; world: at least three iterations, three inserts and a commit; large: at least 1000 keys and a commit",
  {{"views", views_stage, 20000, 1500000, 8}, {"deep", deep_stage, 8000, 600000, 8}, {"world", world_stage, 25000, 2000000, 8}, {"large", large_stage, 64, 4000, 8}}};
