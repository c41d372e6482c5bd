#include "world.hh"

static void revert_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_REVERT | A_ROOT | A_MAP | A_ITER | A_HIST | A_PROOF | A_REOPEN); w.limits();
    w.keys = gen_keys(s, 30);
    w.open(); w.max_txs = 4; w.max_hist = 64;
    uint64_t effective = 0, rebased = 0;
    // some history first
    unsigned commits = 2 + s.below(6);
    for (unsigned i = 0; i < commits; i++) {
      Span sp(s);
      if (w.txs.empty() || s.chance(1, 3)) { if (w.txs.size() < 3) w.tx_open(); }
      size_t t = s.below(w.txs.size()); Changes cs; { Map m = w.txs[t].m; cs = gen_changes(s, w.keys, m, 15); }
      for (auto &x : cs) if (x.del) w.do_remove(w.txs[t], x.key); else w.do_insert(w.txs[t], x.key, x.v);
      w.do_commit(t);
    }
    if (s.chance(1, 3)) { c.logf("reopen"); w.reopen(); }
    unsigned rounds = 1 + s.below(5);
    for (unsigned r = 0; r < rounds; r++) {
      Span sp(s);
      // views open before the revert, some with buffered changes
      while (w.txs.size() < 2 + (size_t)s.below(2)) w.tx_open();
      for (auto &t : w.txs) if (s.chance(1, 2)) { Changes cs; { Map m = t.m; cs = gen_changes(s, w.keys, m, 6); } for (auto &x : cs) if (x.del) w.do_remove(t, x.key); else w.do_insert(t, x.key, x.v); }
      H32 to = w.some_root(); bool changes = ref_root(w.base) != to;
      c.logf("revert to %s (%zu records)", shx(to).c_str(), w.hist[to].size());
      api::R x = api::inject(w.db, to);
      w.chk(A_REVERT, x.ok, "reverting to the committed root %s fails with %s", shx(to).c_str(), err_name(x.err));
      w.base = w.hist[to]; if (changes) effective++;
      H32 g = api::root(w.db); w.chk(A_REVERT, g == to, "after reverting, the database root is %s instead of %s", shx(g).c_str(), shx(to).c_str());
      // views that were open keep what they had
      for (auto &t : w.txs) { H32 a = api::tx_root(t.tx), e = ref_root(t.m); w.chk(A_REVERT | A_ISO, a == e, "a revert of the database changed an open transaction: root %s instead of %s", shx(a).c_str(), shx(e).c_str()); }
      // every way in starts at the reverted root
      unsigned n = 2 + s.below(6);
      for (unsigned i = 0; i < n; i++) {
        Span q(s);
        switch (s.below(8)) {
          case 0: { urkel_tx_t *t = api::tx_create(w.db); w.chk(A_REVERT, t, "cannot create a transaction: %s", err_name(urkel_errno)); w.full_tx(A_REVERT, "a new transaction after a revert", t, w.base); api::tx_destroy(t); break; }
          case 1: { size_t t = s.below(w.txs.size()); api::tx_clear(w.txs[t].tx); w.txs[t].m = w.base; w.full_tx(A_REVERT, "a transaction reset after a revert", w.txs[t].tx, w.txs[t].m); break; }
          case 2: { H32 k = w.any_key(w.base); w.chk_get(A_REVERT, "urkel_get after a revert", api::get(w.db, k), w.base, k); w.chk_has(A_REVERT, "urkel_has after a revert", api::has(w.db, k), w.base, k); break; }
          case 3: { H32 k = w.any_key(w.base); w.chk_proof(A_REVERT, "urkel_prove after a revert", api::prove(w.db, k), w.base, k, ref_root(w.base)); break; }
          case 4: w.chk_iter(A_REVERT, "urkel_iterate after a revert", api::iterate(w.db), w.base); break;
          case 5: { // re-base a transaction: like a new one there
            size_t t = s.below(w.txs.size()); H32 h = w.some_root(); c.logf("re-base tx%zu on %s", t, shx(h).c_str());
            api::R y = api::tx_inject(w.txs[t].tx, h); w.chk(A_REVERT, y.ok, "re-basing on a committed root fails with %s", err_name(y.err));
            w.txs[t].m = w.hist[h]; w.full_tx(A_REVERT, "a re-based transaction", w.txs[t].tx, w.txs[t].m); rebased++; break; }
          case 6: { H32 h = w.some_root(); w.full_root(A_REVERT, "a root of the history after a revert", h, w.hist[h]); break; }
          default: { // an unknown root changes nothing
            H32 u = rnd_key(s.seed()); api::R y = api::inject(w.db, u); w.chk(A_REVERT | A_ERR, !y.ok && y.err == URKEL_ENOTFOUND, "reverting to an unknown root: %d %s", y.ok, err_name(y.err));
            H32 b = api::root(w.db), e = ref_root(w.base); w.chk(A_REVERT, b == e, "a refused revert moved the database root"); break; }
        }
      }
      // the next commit builds on it
      switch (s.below(5)) {
        case 0: { H32 k = w.any_key(w.base); Bytes v = gen_value(s); c.logf("db insert %s", kx(k).c_str()); api::R y = api::insert(w.db, k, v); w.chk(A_REVERT, y.ok, "one-shot insert after a revert: %s", err_name(y.err)); Map m = w.base; m[k] = v; w.did_commit(m); break; }
        case 1: if (!w.base.empty()) { H32 k = w.some_key(w.base, true); c.logf("db remove %s", kx(k).c_str()); api::R y = api::remove(w.db, k); w.chk(A_REVERT, y.ok, "one-shot remove after a revert: %s", err_name(y.err)); Map m = w.base; m.erase(k); w.did_commit(m); } break;
        case 2: { w.tx_open(); size_t t = w.txs.size() - 1; Changes cs; { Map m = w.txs[t].m; cs = gen_changes(s, w.keys, m, 10); } for (auto &y : cs) if (y.del) w.do_remove(w.txs[t], y.key); else w.do_insert(w.txs[t], y.key, y.v); w.do_commit(t); break; }
        case 3: { size_t t = s.below(w.txs.size()); w.do_commit(t); break; } // whatever that view had
        default: break;
      }
      w.full_db(A_REVERT, "after the revert and what followed", s.chance(1, 3));
      if (s.chance(1, 4)) { c.logf("reopen"); w.reopen(); w.full_db(A_REVERT, "reopened", false); }
    }
    w.full_db(A_REVERT, "at the end");
    c.nontrivial = effective >= 1; c.label("reverts that move the root", effective); c.label("transactions re-based", rebased);
    w.close();
  });
}
static void world_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_REVERT | A_ROOT | A_MAP | A_ITER | A_HIST | A_PROOF | A_REOPEN); w.limits();
    w.keys = gen_keys(c.s, 30);
    w.open();
    w.w[O_INJECT] = 10; w.w[O_TX_INJECT] = 8; w.w[O_TX_CLEAR] = 8; w.w[O_COMMIT] = 12; w.w[O_TX_OPEN] = 6; w.w[O_TX_ROOT] = 6; w.w[O_DB_ROOT] = 6; w.w[O_ONE_GET] = 8; w.w[O_BAD] = 3; w.w[O_ONE_INSERT] = 5; w.w[O_ONE_REMOVE] = 4;
    size_t steps = 10 + c.s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    w.full_db(A_REVERT, "at the end");
    c.nontrivial = w.n.reverts >= 1 && w.n.commits >= 2; c.label("reverts", w.n.reverts);
    w.close();
  });
}
const Prop the_prop = {"C25", "revert: at least one revert that moves the root, with views open across it; world: at least one revert and two commits",
  {{"revert", revert_stage, 17500, 1500000, 8}, {"world", world_stage, 20000, 1500000, 8}}};
