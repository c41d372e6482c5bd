// A large tree, changed in bulk: what small histories cannot reach.
#pragma once
#include "world.hh"

namespace large {
inline Keys keys(Src &s, size_t n) {
  uint64_t sd = s.seed(); unsigned shape = s.below(4); Keys k; std::set<H32> seen;
  for (size_t i = 0; i < n; i++) {
    H32 x = rnd_key(sd + i); uint64_t r = mix64(sd ^ (i * 7 + 1));
    unsigned sh = shape == 3 ? r % 3 : shape;
    if (sh == 1) { H32 p = rnd_key(sd + n + r % 5); for (unsigned b = 0; b < 3 + (r >> 8) % 27; b++) x[b] = p[b]; }       // long shared prefixes
    if (sh == 2) { x = rnd_key(sd + n + 9); uint32_t v = (uint32_t)i; memcpy(&x[(r >> 60) & 1 ? 28 : 0], &v, 4); }          // counters, at either end
    if (seen.insert(x).second) k.push_back(x);
  }
  return k;
}
inline void run(Ctx &c, unsigned aspects) {
  judged(c, [&] {
    Src &s = c.s; World w(c, aspects); w.limits(1, 3);
    w.keys = keys(s, s.range(1200, c.thorough ? 30000 : 9000)); w.max_hist = 8;
    w.open(); w.tx_open(); c.logf("%zu keys", w.keys.size());
    const Keys &K = w.keys; uint64_t sd = s.seed();
    for (unsigned r = 0, rn = s.range(2, 5); r < rn; r++) {
      Span sp(s);
      if (w.txs.empty()) w.tx_open();
      TxM &t = w.txs[0]; urkel_tx_t *x = t.tx;
      unsigned del = r ? s.pickl({0, 10, 50, 100}) : 0, n = r ? s.pickl({5, 100, 1000, 20000}) : 1000000; size_t chg = 0;
      for (size_t i = 0; i < K.size() && chg < n; i++) {
        uint64_t q = mix64(sd + r * 1000003 + i); const H32 &k = r ? K[q % K.size()] : K[i];
        if ((q >> 32) % 100 < del) { bool e = t.m.count(k); api::R z = api::tx_remove(x, k); w.chk(A_MAP, !!z.ok == e, "remove(%s): %d (%s), the key is %s", kx(k).c_str(), z.ok, err_name(z.err), e ? "present" : "absent"); if (e) t.m.erase(k); }
        else { Bytes v = mk_value((q >> 40) % 30, q >> 50); api::R z = api::tx_insert(x, k, v); w.chk(A_MAP, z.ok, "insert fails with %s", err_name(z.err)); t.m[k] = v; }
        chg++;
      }
      c.logf("round %u: %zu changes, %u%% removals, %zu records", r, chg, del, t.m.size());
      bool com = s.chance(3, 4);
      if (com) { w.do_commit(0); c.logf("commit"); if (s.chance(1, 3)) { c.logf("reopen"); w.reopen(); w.tx_open(); } }
      { TxM &t2 = w.txs[0];
        if (aspects & A_ROOT) { H32 g = api::tx_root(t2.tx), e = ref_root(t2.m); w.chk(A_ROOT, g == e, "root %s instead of %s (%zu records)", shx(g).c_str(), shx(e).c_str(), t2.m.size()); }
        if (aspects & A_MAP) for (size_t i = 0; i < K.size(); i += 1 + i % 7) { w.chk_get(A_MAP, "get", api::tx_get(t2.tx, K[i]), t2.m, K[i]); if (i % 64 == 0) { H32 z = K[i]; z[mix64(sd + i) % 32] ^= 1 << i / 64 % 8; w.chk_get(A_MAP, "get", api::tx_get(t2.tx, z), t2.m, z); } }
        if (aspects & A_ITER) { bool ko = s.chance(1, 3); w.chk_iter(A_ITER, "iterate", api::iter_create(t2.tx), t2.m, ko); }
        if (aspects & A_PROOF) { H32 e = ref_root(t2.m); for (size_t i = 0; i < 60; i++) { H32 k = K[mix64(sd + i * 31 + r) % K.size()]; if (i % 3 == 0) k[mix64(sd + i) % 32] ^= 1 << i % 8; w.chk_proof(A_PROOF, "prove", api::tx_prove(t2.tx, k), t2.m, k, e, i < 4); } }
      }
      if (aspects & (A_HIST | A_ISO)) for (auto &h : w.hist) {
        urkel_tx_t *o = api::tx_create(w.db, &h.first); w.chk(A_HIST | A_ISO, o != nullptr, "the committed root %s is refused", shx(h.first).c_str());
        for (size_t i = mix64(sd + r) % 50; i < K.size(); i += 50) w.chk_get(A_HIST | A_ISO, "get at a root", api::tx_get(o, K[i]), h.second, K[i]);
        if (s.chance(1, 3)) w.chk_iter(A_HIST, "iterate a root", api::iter_create(o), h.second);
        api::tx_destroy(o);
      }
    }
    w.close(); w.base = w.committed; w.open();
    if (aspects & A_MAP) for (size_t i = 0; i < K.size(); i += 3) w.chk_get(A_MAP, "urkel_get after reopening", api::get(w.db, K[i]), w.base, K[i]);
    if (aspects & A_ITER) { int e; w.chk_iter(A_ITER, "iterate after reopening", api::iterate(w.db, nullptr, &e), w.base); }
    if (aspects & (A_ROOT | A_REOPEN)) { H32 g = api::root(w.db), e = ref_root(w.base); w.chk(A_ROOT | A_REOPEN, g == e, "root %s instead of %s after reopening", shx(g).c_str(), shx(e).c_str()); }
    w.close(); c.nontrivial = w.n.commits >= 1 && w.keys.size() >= 1000; c.label("records in large trees", w.base.size());
  });
}
} // namespace large
