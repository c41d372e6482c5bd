#include "large.hh"

// Random histories over one or more transactions.
static void map_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_MAP | A_REOPEN); w.limits();
    w.keys = gen_keys(c.s, 80);
    w.open();
    w.w[O_BURST] = 8; w.w[O_GET] = 16; w.w[O_COMMIT] = 8; w.w[O_PROVE] = w.w[O_ITER] = w.w[O_ONE_PROVE] = w.w[O_ONE_ITER] = w.w[O_TX_ROOT] = 1; w.w[O_REOPEN] = 4;
    w.max_txs = 2;
    size_t steps = 5 + c.s.below(c.thorough ? 120 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    for (auto &t : w.txs) for (auto &k : w.keys) w.chk_get(A_MAP, "tx_get at the end", api::tx_get(t.tx, k), t.m, k);
    w.reopen();
    for (auto &k : w.keys) { w.chk_get(A_MAP, "urkel_get after reopening", api::get(w.db, k), w.base, k); w.chk_has(A_MAP, "urkel_has after reopening", api::has(w.db, k), w.base, k); }
    c.nontrivial = w.n.commits >= 1 && w.n.inserts >= 3 && (w.n.removes || w.n.overwrites) && w.base.size() >= 2;
    c.label("commits", w.n.commits); c.label("inserts", w.n.inserts); c.label("overwrites", w.n.overwrites); c.label("removes", w.n.removes); c.label("reads of buffered views", w.n.gets_buffered); c.label("reads of stored views", w.n.gets_stored);
    w.close();
  });
}

// Chains of keys that share up to 255 bits, added and removed in any order.
static void deep_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_MAP | A_REOPEN); w.limits();
    w.keys = gen_keys(c.s, 270, c.s.chance(1, 4) ? 5 : 2);
    w.open();
    Keys order = w.keys; uint64_t sd = c.s.seed();
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[mix64(sd + i) % i]);
    w.tx_open();
    size_t every = 1 + c.s.below(order.size());
    for (size_t i = 0; i < order.size(); i++) {
      Span sp(c.s);
      w.do_insert(w.txs[0], order[i], mk_value(mix64(sd ^ i) % 40, i));
      if (i % every == every - 1) { w.do_commit(0); if (c.s.chance(1, 3)) { c.logf("reopen"); w.reopen(); w.tx_open(); } }
      if (i % 16 == 7) for (size_t j = 0; j < order.size(); j += 5) w.chk_get(A_MAP, "tx_get", api::tx_get(w.txs[0].tx, order[j]), w.txs[0].m, order[j]);
    }
    for (auto &k : w.keys) w.chk_get(A_MAP, "tx_get", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k);
    for (size_t i = 0; i < 8; i++) { H32 k = gen_near(c.s, w.keys); w.chk_get(A_MAP, "tx_get near", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k); }
    sd = c.s.seed();
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[mix64(sd + i) % i]);
    size_t rm = c.s.below(order.size() + 1);
    for (size_t i = 0; i < rm; i++) {
      w.do_remove(w.txs[0], order[i]);
      if (i % every == every - 1) { w.do_commit(0); if (c.s.chance(1, 3)) { c.logf("reopen"); w.reopen(); w.tx_open(); } }
      if (i % 16 == 7) for (size_t j = 0; j < order.size(); j += 5) w.chk_get(A_MAP, "tx_get", api::tx_get(w.txs[0].tx, order[j]), w.txs[0].m, order[j]);
    }
    w.do_commit(0);
    w.reopen();
    for (auto &k : w.keys) w.chk_get(A_MAP, "urkel_get after reopening", api::get(w.db, k), w.base, k);
    c.nontrivial = order.size() >= 40;
    c.label(sfmt("chains of %zu+ keys", order.size() / 64 * 64));
    w.close();
  });
}

// Every value length, buffered, stored, reopened, overwritten by another.
static void length_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_MAP | A_REOPEN); w.limits();
    w.keys = gen_keys(c.s, 12, 0);
    w.open(); w.tx_open();
    size_t from = (c.idx * 8) % 1024;
    for (size_t n = from; n < from + 8; n++) {
      Span sp(c.s);
      H32 k = w.keys[c.s.below(w.keys.size())];
      w.do_insert(w.txs[0], k, mk_value(n, c.s.below(1 << 20)));
      w.chk_get(A_MAP, "tx_get of a buffered value", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k);
      if (c.s.chance(2, 3)) { w.do_commit(0); w.chk_get(A_MAP, "tx_get of a stored value", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k); }
      // overwritten with a value that differs in one byte, or only in length
      if (c.s.chance(1, 2)) { Bytes v = w.txs[0].m[k]; if (v.size() && c.s.chance(1, 2)) v[c.s.below(v.size())] ^= 1 << c.s.below(8); else if (v.size()) v.pop_back(); else v.push_back(0); w.do_insert(w.txs[0], k, v); w.chk_get(A_MAP, "tx_get of an overwritten value", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k); }
      // the same again: no change
      if (c.s.chance(1, 4)) { w.do_insert(w.txs[0], k, Bytes(w.txs[0].m[k])); w.chk_get(A_MAP, "tx_get after inserting the same", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k); }
    }
    w.do_commit(0);
    for (auto &k : w.keys) w.chk_get(A_MAP, "tx_get", api::tx_get(w.txs[0].tx, k), w.txs[0].m, k);
    w.reopen();
    for (auto &k : w.keys) w.chk_get(A_MAP, "urkel_get after reopening", api::get(w.db, k), w.base, k);
    c.nontrivial = true;
    c.label("value lengths tried", 8);
    w.close();
  });
}

static void large_stage(Ctx &c) { large::run(c, A_MAP); }
const Prop the_prop = {"C01", "map: at least one commit, three inserts, one overwrite or removal and two records at the end; deep: at least 40 keys in a chain of shared prefixes; lengths: always (each case covers 8 consecutive lengths); large: at least 1000 keys and a commit",
  {{"map", map_stage, 54000, 3750000, 8}, {"deep", deep_stage, 1800, 125000, 8}, {"lengths", length_stage, 7680, 500000, 8}, {"large", large_stage, 40, 4000, 8}}};
