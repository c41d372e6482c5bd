#include "world.hh"
#include "proofmut.hh"
#include "seen.hh"

static void code(const char *what, int ok, int err, int want) {
  REQUIRE(!ok, "%s succeeds", what);
  REQUIRE(err == want, "%s reports %s instead of %s", what, err_name(err), err_name(want));
}
static H32 absent(World &w, const Map &m) {
  Src &s = w.s; H32 k = s.chance(1, 2) ? gen_near(s, w.keys) : w.keys[s.below(w.keys.size())];
  while (m.count(k)) { for (unsigned i = 255; ; i--) { key_set(k, i, !key_bit(k, i)); if (key_bit(k, i) || i == 0) break; } }
  return k;
}
static H32 unknown(World &w) {
  Src &s = w.s; H32 h = w.some_root();
  unsigned kind = s.below(4);
  if (kind == 0) h = rnd_key(s.seed() + 5);
  else if (kind == 1 || h == H32{}) { unsigned b = s.below(256); key_set(h, b, !key_bit(h, b)); }
  else if (kind == 2 && w.txs.size()) h = ref_root(w.txs[0].m);
  else if (w.base.size() > 1) { Proof p = ref_prove(w.base, w.base.begin()->first); if (p.nodes.size()) h = p.nodes[s.below(p.nodes.size())].hash; }
  while (w.hist.count(h)) h = rnd_key(s.seed() + 6);
  for (auto &o : w.order) if (o == h) h = rnd_key(s.seed() + 7);
  return h;
}

static const char *fail_call(World &w) {
  Ctx &c = w.c; Src &s = c.s; Span sp(s);
  urkel_t *db = w.db;
  switch (s.below(22)) {
    case 0: { H32 k = absent(w, w.base); c.logf("FAIL get %s", kx(k).c_str()); auto r = api::get(db, k); code("urkel_get of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_get"; }
    case 1: { H32 k = absent(w, w.base); auto r = api::has(db, k); code("urkel_has of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_has"; }
    case 2: { H32 k = w.keys[s.below(w.keys.size())]; size_t n = VALUE_MAX + 1 + s.small(70000); c.logf("FAIL insert %zu bytes", n); auto r = api::insert(db, k, Bytes(n, 'v')); code("urkel_insert of too large a value", r.ok, r.err, URKEL_EINVAL); return "urkel_insert"; }
    case 3: { H32 k = absent(w, w.base); c.logf("FAIL remove %s", kx(k).c_str()); auto r = api::remove(db, k); code("urkel_remove of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_remove"; }
    case 4: { H32 u = unknown(w); auto r = api::prove(db, w.keys[0], &u); code("urkel_prove at an unknown root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_prove"; }
    case 5: { H32 u = unknown(w); auto r = api::get(db, w.keys[0], &u); code("urkel_get at an unknown root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_get at a root"; }
    case 6: { H32 u = unknown(w); auto r = api::has(db, w.keys[0], &u); code("urkel_has at an unknown root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_has at a root"; }
    case 7: { H32 u = unknown(w); int e; auto *i = api::iterate(db, &u, &e); code("urkel_iterate at an unknown root", i != nullptr, e, URKEL_ENOTFOUND); return "urkel_iterate"; }
    case 8: { H32 u = unknown(w); int e; auto *t = api::tx_create(db, &u, &e); code("urkel_tx_create at an unknown root", t != nullptr, e, URKEL_ENOTFOUND); return "urkel_tx_create"; }
    case 9: { H32 u = unknown(w); c.logf("FAIL inject"); auto r = api::inject(db, u); code("urkel_inject of an unknown root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_inject"; }
    case 10: { auto &t = w.tx_any(); H32 u = unknown(w); c.logf("FAIL tx inject"); auto r = api::tx_inject(t.tx, u); code("urkel_tx_inject of an unknown root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_tx_inject"; }
    case 11: { auto &t = w.tx_any(); H32 k = absent(w, t.m); auto r = api::tx_get(t.tx, k); code("urkel_tx_get of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_tx_get"; }
    case 12: { auto &t = w.tx_any(); H32 k = absent(w, t.m); auto r = api::tx_has(t.tx, k); code("urkel_tx_has of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_tx_has"; }
    case 13: { auto &t = w.tx_any(); H32 k = absent(w, t.m); c.logf("FAIL tx remove %s", kx(k).c_str()); auto r = api::tx_remove(t.tx, k); code("urkel_tx_remove of an absent key", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_tx_remove"; }
    case 14: { auto &t = w.tx_any(); H32 k = s.chance(1, 2) ? absent(w, t.m) : w.some_key(t.m, true); size_t n = s.chance(1, 2) ? VALUE_MAX + 1 : VALUE_MAX + 1 + s.small(200000); c.logf("FAIL tx insert of %zu bytes", n); auto r = api::tx_insert(t.tx, k, Bytes(n, 'v')); code("urkel_tx_insert of too large a value", r.ok, r.err, URKEL_EINVAL); return "urkel_tx_insert"; }
    case 15: { auto &t = w.tx_any(); urkel_iter_t *it = api::iter_create(t.tx); size_t n = 0; while (api::iter_next(it).ok) if (++n > 100000) break; for (int i = 0; i < 3; i++) { auto r = api::iter_next(it); int e = r.err; if (r.ok || e != URKEL_EITEREND) { api::iter_destroy(it); code("urkel_iter_next after the end", r.ok, e, URKEL_EITEREND); } } api::iter_destroy(it); return "urkel_iter_next"; }
    case 16: { // unusable paths
      std::string p; unsigned k = s.below(5);
      if (k == 0) p = c.dir + "/missing/parent";
      else if (k == 1) { p = c.dir + "/file"; write_file(p, "x"); }
      else if (k == 2) p = c.dir + "/" + Bytes(300, 'n');
      else if (k == 3) p = Bytes(5000, '/') + "x";
      else { write_file(c.dir + "/file", "x"); p = c.dir + "/file/db"; }
      if (k == 3) p = "/" + Bytes(5000, 'x');
      c.logf("FAIL open %s", p.substr(0, 60).c_str());
      int e; urkel_t *t = api::open(p, &e); if (t) api::close(t);
      code("urkel_open of an unusable path", t != nullptr, e, URKEL_EBADOPEN);
      REQUIRE(!exists(c.dir + "/missing") && (k != 1 || db_files(c.dir).at("file") == "x"), "a failed urkel_open made or changed something");
      return "urkel_open"; }
    case 17: { std::string p = c.dir + (s.chance(1, 2) ? "/nothing" : "/nothing/here"); auto r = api::destroy(p); code("urkel_destroy of nothing", r.ok, r.err, URKEL_EBADOPEN); REQUIRE(!exists(c.dir + "/nothing"), "a failed urkel_destroy made something"); return "urkel_destroy"; }
    case 18: { // the root of nothing for a key, as an unknown key at a known root
      H32 r0 = w.some_root(); const Map &m = w.hist[r0]; H32 k = absent(w, m); auto r = api::get(db, k, &r0); code("urkel_get of an absent key at a root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_get at a root"; }
    case 19: { H32 r0 = w.some_root(); const Map &m = w.hist[r0]; H32 k = absent(w, m); auto r = api::has(db, k, &r0); code("urkel_has of an absent key at a root", r.ok, r.err, URKEL_ENOTFOUND); return "urkel_has at a root"; }
    case 20: { // removing a key twice
      auto &t = w.tx_any(); if (t.m.empty()) return nullptr; H32 k = w.some_key(t.m, true); w.do_remove(t, k); auto r = api::tx_remove(t.tx, k); code("a second urkel_tx_remove", r.ok, r.err, URKEL_ENOTFOUND); return nullptr; }
    default: { // a failing verification
      auto p = api::prove(db, w.keys[0]); if (!p.ok) return nullptr; H32 u = unknown(w); auto v = api::verify(p.v, w.keys[0], u); code("urkel_verify against another root", v.ok, v.err, URKEL_EHASHMISMATCH); return "urkel_verify"; }
  }
}
static void calls_stage(Ctx &c) {
  judged(c, [&] {
    World w(c, A_ERR); w.limits();
    w.keys = gen_keys(c.s, 24); w.open();
    w.w[O_BAD] = 0; w.w[O_FULL] = 0; w.max_hist = 200;
    size_t rounds = 3 + c.s.below(c.thorough ? 10 : 6), fails = 0;
    for (size_t r = 0; r < rounds; r++) {
      for (size_t i = 0, n = c.s.below(20); i < n; i++) w.step();
      if (w.txs.empty() && c.s.chance(2, 3)) w.tx_open();
      Seen a = see(w);
      for (size_t i = 0, n = c.s.range(1, 4); i < n; i++) {
        size_t nt = w.txs.size();
        const char *what = fail_call(w);
        if (!what || w.txs.size() != nt) { a = see(w); continue; }
        same(a, see(w), what); fails++; c.label(std::string("failed ") + what);
      }
    }
    c.nontrivial = fails >= 3 && w.n.commits >= 1;
    w.close();
  });
}

// Everything that is wrong with a well-formed proof.
static std::set<int> faults(const Proof &p, const H32 &key, const H32 &root) {
  std::set<int> w; H32 h{}; unsigned depth = p.depth;
  if (p.type == P_SHORT) { bool has = depth + p.prefix.n <= 256; for (unsigned i = 0; has && i < p.prefix.n; i++) has = p.prefix.get(i) == key_bit(key, depth + i); if (has) w.insert(URKEL_ESAMEPATH); h = ref_internal(p.prefix, p.left, p.right); }
  else if (p.type == P_COLLISION) { if (p.key == key) w.insert(URKEL_ESAMEKEY); h = ref_leaf_vh(p.key, p.hash); }
  else if (p.type == P_EXISTS) h = ref_leaf(key, p.value);
  for (size_t i = p.nodes.size(); i--;) {
    const PNode &n = p.nodes[i];
    if (depth < n.prefix.n + 1) { w.insert(URKEL_ENEGDEPTH); w.insert(URKEL_EHASHMISMATCH); return w; }
    depth--; h = key_bit(key, depth) ? ref_internal(n.prefix, n.hash, h) : ref_internal(n.prefix, h, n.hash); depth -= n.prefix.n;
    for (unsigned j = 0; j < n.prefix.n; j++) if (n.prefix.get(j) != key_bit(key, depth + j)) w.insert(URKEL_EPATHMISMATCH);
  }
  if (depth) w.insert(URKEL_ETOODEEP);
  if (h != root) w.insert(URKEL_EHASHMISMATCH);
  return w;
}
// Proofs that are wrong in one respect.
static void proof_stage(Ctx &c) {
  Src &s = c.s; Keys keys = gen_keys(s, 24); Map m; for (auto &k : keys) if (s.chance(2, 3)) m[k] = gen_value(s);
  H32 root = ref_root(m); std::vector<Map> maps{m}; std::set<int> seen;
  c.logf("%zu records of %zu keys", m.size(), keys.size());
  auto expect = [&](const Bytes &raw, const H32 &k, const H32 &rt, int want, const char *what) {
    api::V v = api::verify(raw, k, rt);
    if (want == 0) { REQUIRE(v.ok, "%s: refused with %s", what, err_name(v.err)); }
    else code(what, v.ok, v.err, want);
    c.label(sfmt("%s (%s)", what, err_name(want))); if (want) seen.insert(want);
  };
  for (unsigned i = 0; i < 16; i++) {
    Span sp(s);
    H32 k = s.chance(1, 4) ? gen_near(s, keys) : keys[s.below(keys.size())]; Proof p = ref_prove(m, k); Bytes raw = ref_encode(p);
    expect(raw, k, root, 0, "true proof");
    { H32 r2 = root; unsigned b = s.below(256); key_set(r2, b, !key_bit(r2, b)); expect(raw, k, r2, URKEL_EHASHMISMATCH, "proof for another root"); }
    if (p.type == P_EXISTS) {
      Proof q = p; if (q.value.size() && s.chance(2, 3)) q.value[s.below(q.value.size())] ^= 1 << s.below(8); else if (q.value.size() < VALUE_MAX) q.value.push_back('x'); else q.value.pop_back();
      expect(ref_encode(q), k, root, URKEL_EHASHMISMATCH, "proof with another value");
      q = p; q.type = P_COLLISION; q.key = k; q.hash = ref_hash(p.value); expect(ref_encode(q), k, root, URKEL_ESAMEKEY, "collision with the key itself");
      q = p; q.value.resize(VALUE_MAX + 1 + s.small(3000)); expect(ref_encode(q), k, root, URKEL_EINVAL, "value too large");
    }
    if (p.type == P_COLLISION) { Proof q = p; q.key = k; expect(ref_encode(q), k, root, URKEL_ESAMEKEY, "collision with the key itself"); q = p; unsigned b = s.below(256); key_set(q.hash, b, !key_bit(q.hash, b)); expect(ref_encode(q), k, root, URKEL_EHASHMISMATCH, "collision with another value"); }
    if (p.type == P_SHORT) {
      H32 k2 = k; for (unsigned j = 0; j < p.prefix.n; j++) key_set(k2, p.depth + j, p.prefix.get(j));
      expect(raw, k2, root, URKEL_ESAMEPATH, "path that the key is on");
      Proof q = p; unsigned b = s.below(256); H32 &h = s.chance(1, 2) ? q.left : q.right; key_set(h, b, !key_bit(h, b)); expect(ref_encode(q), k, root, URKEL_EHASHMISMATCH, "path with another end");
    }
    if (p.nodes.size()) {
      Proof q = p; size_t j = s.below(q.nodes.size()); unsigned b = s.below(256); key_set(q.nodes[j].hash, b, !key_bit(q.nodes[j].hash, b)); expect(ref_encode(q), k, root, URKEL_EHASHMISMATCH, "another hash on the path");
      for (size_t t = 0; t < p.nodes.size(); t++) if (p.nodes[t].prefix.n) { q = p; Forge::flip(q.nodes[t].prefix, s.below(q.nodes[t].prefix.n)); expect(ref_encode(q), k, root, URKEL_EPATHMISMATCH, "prefix off the key's path"); break; }
      if (p.type == P_EXISTS || p.type == P_COLLISION) {
        q = p; q.depth = 0; expect(ref_encode(q), k, root, URKEL_ENEGDEPTH, "more path than depth");
        bool pre = false; for (auto &n : p.nodes) if (n.prefix.n) pre = true;
        if (!pre && p.depth < 256) { q = p; q.depth += 1 + s.below(256 - p.depth); expect(ref_encode(q), k, root, URKEL_ETOODEEP, "more depth than path"); }
        if (!pre && p.nodes.size() > 1) { q = p; q.depth = s.below(p.depth); expect(ref_encode(q), k, root, URKEL_ENEGDEPTH, "more path than depth"); }
      }
    } else if ((p.type == P_EXISTS || p.type == P_COLLISION)) { Proof q = p; q.depth = s.range(1, 256); expect(ref_encode(q), k, root, URKEL_ETOODEEP, "more depth than path"); }
    { Proof q = p; q.depth = 257 + s.below(0x3fff - 257); expect(ref_encode(q), k, root, URKEL_EINVAL, "depth out of range"); }
    { EncOpt o; o.count = s.pickl({257, 1000, 65535}); expect(ref_encode(p, o), k, root, URKEL_EINVAL, "count out of range"); }
    expect(raw.substr(0, s.below(raw.size())), k, root, URKEL_EINVAL, "cut proof");
    expect(raw + Bytes(1 + s.small(100), 'x'), k, root, URKEL_EINVAL, "bytes after the proof");
    // one structural change: a code of what is wrong with it now
    H32 src = s.chance(1, 2) ? k : keys[s.below(keys.size())]; Proof q = ref_prove(m, src); Forge f{s, maps, keys, ""}; if (src == k) f.structure(q, src, k);
    Proof d; Bytes b = ref_encode(q); int wf = ref_decode(b, d);
    if (wf == 1) {
      std::set<int> w = faults(d, k, root); api::V v = api::verify(b, k, root); const char *what = src == k ? "one change" : "proof of another key";
      REQUIRE(!!v.ok == w.empty(), "%s (%s): %s", what, f.how.c_str(), v.ok ? "accepted" : "refused");
      if (!v.ok) { std::string l; for (int x : w) l += std::string(" ") + err_name(x); REQUIRE(w.count(v.err), "%s (%s) is refused with %s, it could be%s", what, f.how.c_str(), err_name(v.err), l.c_str()); c.label(sfmt("%s (%s)", what, err_name(v.err))); }
    }
  }
  c.nontrivial = seen.size() >= 3;
}
const Prop the_prop = {"C23", "calls: at least three failing calls compared in full around a history with a commit; proofs: at least three different verification codes",
  {{"calls", calls_stage, 9000, 60000, 8}, {"proofs", proof_stage, 15000, 100000, 8}}};
