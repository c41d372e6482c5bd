#include "large.hh"

// The same record set along different histories.
static void paths_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_ROOT | A_REOPEN | A_HIST); w.limits();
    w.keys = gen_keys(s, s.chance(1, 6) ? 270 : 60);
    w.open();
    Map final; uint64_t sd = s.seed();
    unsigned density = s.pickl({10, 50, 50, 90, 100});
    for (size_t i = 0; i < w.keys.size(); i++) if (mix64(sd + i) % 100 < density) { size_t l = mix64(sd ^ (i * 77)) % 12; if (l == 11) l = mix64(sd + i * 3) % 1024; final[w.keys[i]] = mk_value(l, mix64(sd + 5 * i) % 1000); }
    H32 expect = ref_root(final);
    unsigned paths = 2 + s.below(2); bool differ = false;
    for (unsigned p = 0; p < paths; p++) {
      Span sp(s);
      c.logf("path %u to %zu records", p, final.size());
      if (s.chance(1, 4) || w.txs.size() >= 4) { while (!w.txs.empty()) { api::tx_destroy(w.txs.back().tx); w.txs.pop_back(); } }
      if (w.order.size() && s.chance(1, 3)) { H32 r = w.some_root(); urkel_tx_t *t = api::tx_create(w.db, &r); w.chk(A_HIST, t, "root refused"); w.txs.push_back({t, w.hist[r], false}); }
      else w.tx_open();
      size_t ti = w.txs.size() - 1;
      // noise first, then the way to the final set in some order, with detours
      size_t noise = s.small(40);
      for (size_t i = 0; i < noise; i++) { Span q(s); TxM &t = w.txs[ti]; if (s.chance(1, 4)) w.do_remove(t, w.any_key(t.m)); else w.do_insert(t, w.some_key(t.m, false), gen_value(s)); }
      Keys todo = w.keys; for (auto &k : w.txs[ti].m) if (std::find(todo.begin(), todo.end(), k.first) == todo.end()) todo.push_back(k.first);
      uint64_t o = s.seed(); unsigned detour = s.pickl({0, 5, 20}), commit_every = s.pickl({0, 0, 3, 10, 40});
      for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[mix64(o + i) % i]);
      if (s.chance(1, 5)) std::sort(todo.begin(), todo.end());
      for (size_t i = 0; i < todo.size(); i++) {
        TxM &t = w.txs[ti]; auto it = final.find(todo[i]); auto cur = t.m.find(todo[i]);
        if (mix64(o ^ (i * 13)) % 100 < detour) { w.do_insert(t, todo[i], mk_value(mix64(o + i) % 20, i)); cur = t.m.find(todo[i]); differ = true; }
        if (it == final.end()) { if (cur != t.m.end()) w.do_remove(t, todo[i]); }
        else if (cur == t.m.end() || cur->second != it->second || mix64(o + i) % 7 == 0) w.do_insert(t, todo[i], it->second);
        if (mix64(o + 99 * i) % 12 == 0) { H32 g = api::tx_root(t.tx), e = ref_root(t.m); w.chk(A_ROOT, g == e, "on the way, %zu records: root %s instead of %s", t.m.size(), shx(g).c_str(), shx(e).c_str()); }
        if (commit_every && mix64(o + 7 * i) % commit_every == 0) { w.do_commit(ti); differ = true; if (mix64(o + 8 * i) % 3 == 0) { Map m = w.txs[ti].m; c.logf("reopen"); w.reopen(); w.tx_open(); ti = 0; } }
      }
      H32 g = api::tx_root(w.txs[ti].tx);
      w.chk(A_ROOT, w.txs[ti].m == final, "harness: path does not lead to the set");
      w.chk(A_ROOT, g == expect, "path %u: root %s instead of %s for the same %zu records", p, shx(g).c_str(), shx(expect).c_str(), final.size());
      if (s.chance(2, 3)) {
        w.do_commit(ti);
        g = api::tx_root(w.txs[ti].tx); w.chk(A_ROOT, g == expect, "path %u: after commit the transaction root is %s", p, shx(g).c_str());
        g = api::root(w.db); w.chk(A_ROOT, g == expect, "path %u: after commit the database root is %s", p, shx(g).c_str());
        urkel_tx_t *t = api::tx_create(w.db, &expect); w.chk(A_HIST | A_ROOT, t, "path %u: snapshot refused: %s", p, err_name(urkel_errno));
        g = api::tx_root(t); w.chk(A_ROOT, g == expect, "path %u: the snapshot root is %s", p, shx(g).c_str());
        // a snapshot changed and changed back
        if (s.chance(1, 3)) { H32 k = rnd_key(s.seed()); if (!final.count(k)) { w.chk(A_MAP, api::tx_insert(t, k, "x").ok, "insert"); w.chk(A_MAP, api::tx_remove(t, k).ok, "remove"); g = api::tx_root(t); w.chk(A_ROOT, g == expect, "path %u: after inserting and removing a record the root is %s", p, shx(g).c_str()); } }
        api::tx_destroy(t);
        if (s.chance(1, 2)) { c.logf("reopen"); w.reopen(); g = api::root(w.db); w.chk(A_ROOT, g == expect, "path %u: after reopening the root is %s", p, shx(g).c_str()); }
      }
    }
    c.nontrivial = final.size() >= 2 && differ;
    c.label(final.size() == 0 ? "final sets: empty" : final.size() == 1 ? "final sets: one record" : final.size() < 20 ? "final sets: 2-19 records" : "final sets: 20+ records");
    w.close();
  });
}

static void world_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_ROOT | A_REOPEN); w.limits();
    w.keys = gen_keys(c.s, 60);
    w.open();
    w.w[O_TX_ROOT] = 20; w.w[O_DB_ROOT] = 10; w.w[O_COMMIT] = 10; w.w[O_REOPEN] = 4; w.w[O_GET] = 2; w.w[O_PROVE] = 5; w.w[O_ITER] = w.w[O_ONE_PROVE] = 1; w.w[O_REMOVE_ALL] = 3;
    w.max_txs = 3;
    size_t steps = 5 + c.s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    for (auto &t : w.txs) { H32 g = api::tx_root(t.tx), e = ref_root(t.m); w.chk(A_ROOT, g == e, "at the end: transaction root %s instead of %s (%zu records)", shx(g).c_str(), shx(e).c_str(), t.m.size()); }
    w.reopen();
    c.nontrivial = w.n.commits >= 1 && (w.n.removes || w.n.overwrites) && w.n.inserts >= 3;
    w.close();
  });
}

static void large_stage(Ctx &c) { large::run(c, A_ROOT); }
const Prop the_prop = {"C02", "paths: at least two records reached along 2-3 histories that differ by detours or commits; world: at least one commit, three inserts and an overwrite or removal; large: at least 1000 keys and a commit",
  {{"paths", paths_stage, 27000, 2250000, 8}, {"world", world_stage, 27000, 2250000, 8}, {"large", large_stage, 64, 4000, 8}}};
