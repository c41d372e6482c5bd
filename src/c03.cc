#include "large.hh"

// Every key of the universe and its neighbours, in every kind of view.
static void views_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_PROOF | A_HIST | A_REOPEN); w.limits();
    w.keys = gen_keys(s, s.chance(1, 8) ? 270 : 40);
    w.open();
    Keys probe = w.keys; for (int i = 0; i < 12; i++) probe.push_back(gen_near(s, w.keys));
    probe.push_back(rnd_key(s.seed()));
    auto all = [&](const char *what, urkel_tx_t *tx, const Map &m) {
      H32 r = ref_root(m); size_t step = probe.size() > 60 ? 5 : 1;
      for (size_t i = m.size() % step; i < probe.size(); i += step) w.chk_proof(A_PROOF, what, api::tx_prove(tx, probe[i]), m, probe[i], r);
    };
    unsigned rounds = 1 + s.below(4); bool mixed = false;
    for (unsigned r = 0; r < rounds; r++) {
      Span sp(s);
      if (w.txs.empty()) w.tx_open();
      TxM &t = w.txs[0];
      Changes cs; { Map m = t.m; cs = gen_changes(s, w.keys, m, w.keys.size() * 2, r ? 35 : 10); }
      for (auto &x : cs) if (x.del) w.do_remove(t, x.key); else w.do_insert(t, x.key, x.v);
      if (r && !cs.empty()) mixed = true;
      c.logf("buffered view, %zu records", t.m.size());
      all("prove in a buffered view", t.tx, t.m);
      if (s.chance(1, 3)) { H32 g = api::tx_root(t.tx); (void)g; all("prove after computing the root", t.tx, t.m); }
      w.do_commit(0);
      all("prove in a committed view", w.txs[0].tx, w.txs[0].m);
      if (s.chance(1, 2)) { c.logf("reopen"); w.reopen(); w.tx_open(); all("prove after reopening", w.txs[0].tx, w.txs[0].m); }
    }
    for (auto &h : w.hist) {
      int e; urkel_tx_t *t = api::tx_create(w.db, &h.first, &e); w.chk(A_HIST, t, "root refused: %s", err_name(e));
      all("prove in a snapshot", t, h.second); api::tx_destroy(t);
      const H32 &k = probe[s.below(probe.size())];
      w.chk_proof(A_PROOF, "urkel_prove at a root", api::prove(w.db, k, &h.first), h.second, k, h.first);
    }
    c.nontrivial = w.n.commits >= 1 && w.base.size() >= 2;
    c.label("proofs", w.n.proofs); if (mixed) c.label("cases with views of stored and buffered nodes");
    w.close();
  });
}
static void world_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_PROOF | A_HIST); w.limits();
    w.keys = gen_keys(c.s, 60);
    w.open();
    w.w[O_PROVE] = 24; w.w[O_ONE_PROVE] = 12; w.w[O_GET] = 2; w.w[O_ITER] = w.w[O_ONE_ITER] = 1;
    size_t steps = 5 + c.s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    c.nontrivial = w.n.proofs >= 3 && w.n.commits >= 1 && w.n.inserts >= 2;
    c.label("proofs", w.n.proofs);
    w.close();
  });
}
static void large_stage(Ctx &c) { large::run(c, A_PROOF); }
const Prop the_prop = {"C03", "views: at least one commit and two records, every key and 13 others proven in each view; world: at least three proofs, a commit and two inserts; large: at least 1000 keys and a commit",
  {{"views", views_stage, 7500, 600000, 8}, {"world", world_stage, 21000, 1500000, 8}, {"large", large_stage, 64, 4000, 8}}};
