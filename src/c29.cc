#include "life.hh"

namespace {
struct Held { size_t blocks, bytes; int fds, maps; static Held now() { return {lib_blocks(), lib_bytes(), lib_fds(), lib_maps()}; } };
struct Tracking { Tracking() { track_memory = true; lib_accounting_reset(); } ~Tracking() { track_memory = false; } };

void build(World &w, Src &s, size_t rounds, size_t per) {
  for (size_t r = 0; r < rounds; r++) {
    Span sp(s); if (w.txs.empty()) w.tx_open();
    for (size_t i = 0, n = 1 + s.below(per); i < n; i++) { Span q(s); if (s.chance(1, 6)) w.do_remove(w.txs[0], w.some_key(w.txs[0].m, true)); else w.do_insert(w.txs[0], w.keys[s.below(w.keys.size())], gen_value(s)); }
    w.do_commit(0);
  }
}

SC F1, F2; bool F_on;
Action policy(const Call &c) { if (!F_on || (c.sc != F1 && c.sc != F2)) return {Action::PASS, 0, 0}; return {Action::ERR, c.sc == S_OPEN ? EMFILE : c.sc == S_MMAP ? ENOMEM : ENOSPC, 0}; }
struct Failing { Failing(SC a, SC b) { F1 = a; F2 = b; F_on = true; sys_policy = policy; } ~Failing() { F_on = false; sys_policy = nullptr; } };

// Calls that leave everything as it was, done again and again.
struct Neutral { unsigned op; int tx; bool at; H32 root, key, key2; Bytes v; size_t n; unsigned b; };
Neutral gen_neutral(World &w) {
  Src &s = w.s; Span sp(s); Neutral x; static const unsigned wt[] = {6, 3, 3, 3, 3, 4, 4, 3, 5, 3, 3, 3, 2, 2, 2, 2, 2};
  x.op = s.weighted(wt, 17); x.tx = w.txs.empty() ? -1 : (int)s.below(w.txs.size()); x.at = s.chance(1, 2); x.root = w.some_root(); x.key = w.keys[s.below(w.keys.size())]; x.key2 = s.chance(1, 4) ? gen_near(s, w.keys) : w.keys[s.below(w.keys.size())];
  x.v = gen_value(s); x.n = s.below(12); x.b = s.below(256); return x;
}
void play(World &w, const Neutral &x) {
  const H32 *at = x.at ? &x.root : nullptr; urkel_tx_t *t = x.tx >= 0 ? w.txs[x.tx].tx : nullptr; int e;
  auto some = [&](urkel_iter_t *it, size_t n) { if (!it) return; for (size_t i = 0; i < n; i++) if (!api::iter_next(it, x.b & 1).ok) break; api::iter_destroy(it); };
  switch (x.op) {
    case 0: case 1: { // a transaction that is dropped
      urkel_tx_t *q = api::tx_create(w.db, at, &e); if (!q) break;
      for (size_t i = 0; i < x.n; i++) { const H32 &k = w.keys[(x.b + i * 7) % w.keys.size()]; if ((x.b >> (i % 8)) & 1) api::tx_remove(q, k); else api::tx_insert(q, k, x.v); if (i == x.n / 2) { if (x.b & 2) api::tx_root(q); if (x.b & 4) api::tx_prove(q, x.key2); if (x.op == 1) { if (x.b & 8) api::tx_clear(q); else api::tx_inject(q, x.root); } } }
      if (x.b & 16) { some(api::iter_create(q), x.n * 3); } api::tx_get(q, x.key); api::tx_destroy(q); break; }
    case 2: api::get(w.db, x.key2, at); break;
    case 3: api::has(w.db, x.key2, at); break;
    case 4: { auto p = api::prove(w.db, x.key2, at); H32 r = at ? *at : api::root(w.db); if (p.ok) { if (x.b & 1 && p.v.size()) p.v[x.b % p.v.size()] ^= 1 << x.n % 8; api::verify(p.v, x.key2, r); } break; }
    case 5: some(api::iterate(w.db, at, &e), x.b & 2 ? 100000 : x.n); break;
    case 6: if (t) some(api::iter_create(t), x.b & 2 ? 100000 : x.n); break;
    case 7: if (t) { api::tx_prove(t, x.key2); api::tx_root(t); } break;
    case 8: if (t) { api::tx_get(t, x.key2); api::tx_has(t, x.key); } break;
    case 9: if (t) { Bytes big(VALUE_MAX + 1 + x.b, 'b'); api::tx_insert(t, x.key, big); } else api::insert(w.db, x.key, Bytes(VALUE_MAX + 1, 'b')); break;
    case 10: { H32 u = rnd_key(x.b + 0x9999); urkel_tx_t *q = api::tx_create(w.db, &u, &e); if (q) api::tx_destroy(q); if (t) api::tx_inject(t, u); api::inject(w.db, u); api::get(w.db, x.key, &u); break; }
    case 11: { H32 k = x.key2; k[31] ^= 0x55; if (t && !w.txs[x.tx].m.count(k)) api::tx_remove(t, k); if (!w.base.count(k)) api::remove(w.db, k); break; }
    case 12: if (t) { if (x.b & 1) api::tx_inject(t, x.root); api::tx_clear(t); } break;
    case 13: { H32 r = api::root(w.db); api::inject(w.db, x.root); api::get(w.db, x.key); api::inject(w.db, r); break; }
    case 15: { // a commit that cannot write
      urkel_tx_t *q = api::tx_create(w.db, at, &e); if (!q) break;
      for (size_t i = 0; i < x.n; i++) api::tx_insert(q, w.keys[(x.b + i * 7) % w.keys.size()], x.v);
      { Failing f(S_WRITE, x.b & 1 ? S_OPEN : S_PWRITE); if (api::tx_commit(q).ok) throw Skip{"a commit that could not write succeeds"}; if (x.b & 2) api::insert(w.db, x.key, x.v); }
      api::tx_destroy(q); break; }
    case 16: { Failing f(S_OPEN, S_MMAP); api::get(w.db, x.key, at); api::prove(w.db, x.key2, at); some(api::iterate(w.db, at, &e), 1000); if (t && x.b & 1) { api::tx_insert(t, x.key, x.v); api::tx_remove(t, x.key2); api::tx_insert(t, x.key2, x.v); } break; }
    default: if (t) { api::tx_insert(t, x.key, x.v); api::tx_insert(t, x.key2, x.v); } break;
  }
}
void again(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0); w.limits(1, 2); w.keys = gen_keys(s, 30); w.max_hist = 64; Tracking tr;
    w.open(); build(w, s, 1 + s.below(8), 14); if (s.chance(1, 2)) { w.reopen(); }
    for (size_t i = 0, n = s.below(3); i < n; i++) { w.tx_open(); for (size_t j = s.below(6); j; j--) w.do_insert(w.txs.back(), w.keys[s.below(w.keys.size())], gen_value(s)); }
    std::vector<Neutral> xs; for (size_t i = 0, n = 1 + s.below(c.thorough ? 30 : 15); i < n; i++) xs.push_back(gen_neutral(w));
    for (int k = 0; k < 2; k++) for (auto &x : xs) play(w, x); // what is kept for good is there after this
    Held h0 = Held::now();
    for (int k = 0; k < 3; k++) {
      for (auto &x : xs) play(w, x);
      Held h = Held::now(); c.logf("round %d of %zu calls: %zu allocations, %zu bytes, %d descriptors, %d mappings", k, xs.size(), h.blocks, h.bytes, h.fds, h.maps);
      REQUIRE(h.fds == h0.fds && h.maps == h0.maps, "the same calls that change nothing, once more: from %d to %d descriptors, from %d to %d mappings", h0.fds, h.fds, h0.maps, h.maps);
      REQUIRE(h.blocks <= h0.blocks && h.bytes <= h0.bytes, "the same calls that change nothing, once more: from %zu to %zu allocations, from %zu to %zu bytes", h0.blocks, h.blocks, h0.bytes, h.bytes);
    }
    w.close(); c.nontrivial = w.n.commits >= 1 && xs.size() >= 3; c.label("calls repeated", xs.size()); c.st.sub += xs.size() * 5;
  });
}

// After a commit: nothing of what it stored stays in memory, and few files stay open.
void commits(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0); w.limits(3, 4); w.keys = gen_keys(s, s.chance(1, 3) ? 120 : 40); w.max_hist = 1000; Tracking tr;
    w.w[O_COMMIT] = 14; w.w[O_REOPEN] = 1; w.w[O_BURST] = 12; w.w[O_FULL] = 0; w.w[O_TX_AT] = 2; w.w[O_REMOVE_ALL] = 1; w.w[O_INJECT] = 1;
    w.open(); uint64_t nc = 0, nr = 0, seen = 0; size_t b0 = lib_blocks(), big = 0, grow = 0, tot = 0, kept = 0; uint32_t files = 0;
    w.after = [&](const char *) {
      if (w.n.reopens != nr) { nr = w.n.reopens; seen = kept = 0; big = 0; b0 = lib_blocks() - w.txs.size() * 4; nc = w.n.commits; return; }
      if (w.n.commits == nc) return;
      nc = w.n.commits; seen++; size_t sz = 0;
      for (auto &f : db_files(w.path)) if (is_data_name(f.first)) { sz += f.second.size(); files = std::max<uint32_t>(files, strtoul(f.first.c_str(), 0, 10)); }
      grow = std::max(grow, sz - tot); tot = sz;
      int most = (int)urkel_verif_max_open_files;
      REQUIRE(lib_fds() <= most + 1, "after a commit %d descriptors are open, at most %d data files and the lock are due (%u files in all)", lib_fds(), most, files);
      REQUIRE(lib_maps() <= most, "after a commit %d files are mapped, at most %d are due (%u files in all)", lib_maps(), most, files);
      if (files > urkel_verif_max_open_files) c.label("commits with more data files than may be open");
      // Transactions without changes only; everything else may hold what it buffers.
      for (auto &t : w.txs) if (t.dirty || !t.touched.empty()) return;
      size_t b = lib_blocks(), roots = w.order.size() + 1, lim = b0 + w.txs.size() * 4 + roots + std::min<size_t>(files, most) + 16;
      REQUIRE(b <= lim, "after %llu commits (%zu different roots) and with %zu transactions without changes, the library holds %zu allocations, at most %zu are due", (unsigned long long)seen, roots, w.txs.size(), b, lim);
      size_t bl = 65536 + roots * 1024 + w.txs.size() * 1024 + 3 * grow + files * 64; big = std::max(big, bl);
      REQUIRE(lib_bytes() <= big, "after %llu commits (%zu different roots), the library holds %zu bytes, at most %zu are due", (unsigned long long)seen, roots, lib_bytes(), big);
      kept++; c.label("commits measured in memory");
    };
    for (size_t i = 0, n = 15 + s.below(c.thorough ? 150 : 60); i < n; i++) w.step();
    w.after = nullptr; w.close(); c.nontrivial = kept >= 1 && w.n.commits >= 3; c.st.sub += w.n.commits;
  });
}

// Reading a large tree holds a path of it, no more.
void large(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0); w.limits(1, 4); size_t n = s.range(3000, c.thorough ? 12000 : 5000); uint64_t sd = s.seed(); Tracking tr;
    w.open(); w.tx_open(); for (size_t i = 0; i < n; i++) { H32 k = rnd_key(sd + i); Bytes v(1 + i % 60, (char)i); if (!api::tx_insert(w.txs[0].tx, k, v).ok) throw Skip{"insert"}; w.txs[0].m[k] = v; w.keys.push_back(k); }
    w.do_commit(0); size_t b0 = lib_blocks(); bool long_lived = s.chance(1, 2); c.logf("%zu records stored, %zu allocations", n, b0);
    REQUIRE(b0 <= 1000, "after the commit of %zu records the library holds %zu allocations", n, b0);
    if (!long_lived) { w.reopen(); w.tx_open(); b0 = lib_blocks(); }
    urkel_tx_t *t = w.txs[0].tx; size_t peak = 0, i = 0;
    for (unsigned k = 0; k < 3; k++) switch (s.below(3)) {
      case 0: { urkel_iter_t *it = s.chance(1, 2) ? api::iter_create(t) : api::iterate(w.db); if (!it) throw Skip{"iterator"}; for (i = 0; api::iter_next(it, k & 1).ok; i++) { peak = std::max(peak, lib_blocks()); if (peak > b0 + 1100) break; } api::iter_destroy(it); REQUIRE(peak <= b0 + 1100, "after %zu of %zu records an iterator holds %zu allocations, two for each level are due", i, n, peak - b0); break; }
      case 1: for (i = 0; i < n; i += 2) api::tx_get(t, w.keys[i]); break;
      default: for (i = 0; i < n; i += 20) api::tx_prove(t, w.keys[i]); break;
    }
    size_t b = lib_blocks(); REQUIRE(b <= b0 + 16 + (size_t)lib_maps() + (size_t)lib_fds(), "reading all of %zu records leaves %zu allocations more than before", n, b - b0);
    w.close(); c.nontrivial = true; c.label("records read", n);
  });
}
} // namespace
extern const Prop the_prop = {"C29", "again: at least three calls repeated on a database with a commit; commits: at least three commits, one of them measured in memory; large: 3000-12000 records",
  {{"again", again, 16000, 600000, 8}, {"commits", commits, 12000, 500000, 8}, {"large", large, 48, 2000, 8}}};
