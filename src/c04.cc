#include "world.hh"
#include "proofmut.hh"

// Accepting means telling the truth about m.
static int judge(Ctx &c, const Bytes &raw, const H32 &k, const H32 &root, const Map &m, const char *what) {
  api::V v = api::verify(raw, k, root);
  if (!v.ok) return 0;
  auto it = m.find(k);
  bool e = it != m.end();
  if (!!v.exists != e || (e && v.v != it->second)) {
    c.logf("FALSE PROOF (%s) for key %s: %s", what, hex(k).c_str(), hex(raw.data(), raw.size()).c_str());
    if (e && !v.exists) fail("a false proof is accepted (%s): the stored key %s is said to be absent", what, kx(k).c_str());
    if (!e) fail("a false proof is accepted (%s): the absent key %s is said to have a value of %zu bytes", what, kx(k).c_str(), v.v.size());
    fail("a false proof is accepted (%s): key %s is said to have another value (%zu bytes, not %zu)", what, kx(k).c_str(), v.v.size(), it->second.size());
  }
  return 1;
}

static void make_maps(Src &s, const Keys &keys, std::vector<Map> &maps, size_t n) {
  Map m;
  for (auto &k : keys) if (s.chance(2, 3)) m[k] = gen_value(s);
  maps.push_back(m);
  for (size_t i = 1; i < n; i++) { Map q = maps.back(); for (unsigned j = 0, e = s.range(1, 5); j < e; j++) { Span sp(s); const H32 &k = keys[s.below(keys.size())]; if (q.count(k) && s.chance(1, 2)) q.erase(k); else q[k] = gen_value(s); } maps.push_back(q); }
}

static void forge_stage(Ctx &c) {
  Src &s = c.s;
  Keys keys = gen_keys(s, 32);
  std::vector<Map> maps; make_maps(s, keys, maps, s.range(1, 3));
  const Map &m = maps[0]; H32 root = ref_root(m);
  c.logf("%zu records of %zu keys, %zu record sets, root %s", m.size(), keys.size(), maps.size(), shx(root).c_str());
  unsigned wellformed = 0, n = 20 + s.below(c.thorough ? 100 : 60);
  for (unsigned i = 0; i < n; i++) {
    Span sp(s);
    H32 k = s.chance(1, 6) ? gen_near(s, keys) : keys[s.below(keys.size())];
    H32 src = s.chance(1, 2) ? k : keys[s.below(keys.size())];
    const Map &from = s.chance(3, 4) ? m : maps[s.below(maps.size())];
    Proof p = ref_prove(from, src);
    Forge f{s, maps, keys, src == k ? "" : "proof of another key"};
    if (&from != &m) f.note("another root");
    for (unsigned j = s.pickl({0, 1, 1, 1, 2, 2, 3}); j > 0; j--) f.structure(p, src, k);
    Bytes raw = ref_encode(p);
    for (unsigned j = s.pickl({0, 0, 0, 0, 1, 1, 2}); j > 0; j--) f.bytes(raw);
    Proof q; bool wf = ref_decode(raw, q) >= 1; bool honest = raw == ref_encode(ref_prove(m, k));
    if (wf && !honest) wellformed++;
    c.logf("%s of %s: %s%s", f.how.c_str(), kx(k).c_str(), wf ? "" : "malformed ", honest ? "true proof" : "");
    int acc = judge(c, raw, k, root, m, f.how.c_str());
    if (acc) c.label(honest ? "true proofs accepted" : "altered proofs accepted (true all the same)"); else c.label(wf ? "well-formed altered proofs refused" : "malformed proofs refused");
    // the proof as it is, for everybody else and for other roots
    if (i % 8 == 0) {
      for (auto &o : keys) judge(c, raw, o, root, m, ("for another key: " + f.how).c_str());
      H32 r2 = root; unsigned b = s.below(256); key_set(r2, b, !key_bit(r2, b));
      api::V v = api::verify(raw, k, r2);
      REQUIRE(!v.ok, "a proof is accepted for a root that differs in bit %u", b);
      for (auto &o : maps) { judge(c, raw, k, ref_root(o), o, ("for another root: " + f.how).c_str()); }
    }
  }
  c.nontrivial = wellformed >= 10;
  c.label("well-formed altered proofs", wellformed);
}

// All pairs of keys, all depths, all types for the true proofs of a small tree.
static void pairs_stage(Ctx &c) {
  Src &s = c.s;
  Keys keys = gen_keys(s, 9);
  std::vector<Map> maps; make_maps(s, keys, maps, 1);
  const Map &m = maps[0]; H32 root = ref_root(m);
  Keys targets(keys); for (int i = 0; i < 3; i++) targets.push_back(gen_near(s, keys));
  std::set<Bytes> mat;
  std::vector<std::pair<H32, Proof>> ps;
  for (auto &k : targets) { Proof p = ref_prove(m, k); if (mat.insert(ref_encode(p)).second) ps.push_back({k, p}); }
  c.logf("%zu records, %zu targets, %zu proofs", m.size(), targets.size(), ps.size());
  uint64_t tried = 0;
  for (auto &kp : ps) {
    std::vector<std::pair<std::string, Proof>> forms; forms.push_back({"as is", kp.second});
    const Proof &p = kp.second;
    // every ancestor as the end of the path
    for (size_t lv = 0; lv < p.nodes.size(); lv++) {
      H32 below; if (!Forge::subtree(p, kp.first, lv + 1, below)) continue;
      unsigned at = Forge::depth_of(p, lv), ba = at + p.nodes[lv].prefix.n; bool b = key_bit(kp.first, ba);
      Proof q; q.nodes.assign(p.nodes.begin(), p.nodes.begin() + lv); q.depth = at;
      H32 l = b ? p.nodes[lv].hash : below, r = b ? below : p.nodes[lv].hash;
      q.type = P_SHORT; q.prefix = p.nodes[lv].prefix; q.left = l; q.right = r; if (q.prefix.n) forms.push_back({"ancestor as end", q});
      for (unsigned bit = 0; bit < 2; bit++) { Proof x = q; x.prefix = Bits(); x.prefix.n = 1; x.prefix.d.assign(1, bit ? 0x80 : 0); if (q.prefix.n == 0) forms.push_back({"ancestor as end, prefix made up", x}); }
      q.type = P_COLLISION; q.key = l; q.hash = r; forms.push_back({"ancestor as leaf", q});
      // the sibling's side, one level on
      Proof sd = p; sd.nodes.resize(lv + 1); sd.depth = ba + 1; sd.type = P_DEADEND; forms.push_back({"child as nothing", sd});
    }
    if (p.type == P_EXISTS) { Proof q = p; q.type = P_COLLISION; q.key = kp.first; q.hash = ref_hash(p.value); forms.push_back({"leaf as collision", q}); }
    if (p.type == P_COLLISION) for (auto &kv : m) if (kv.first == p.key) { Proof q = p; q.type = P_EXISTS; q.value = kv.second; forms.push_back({"collision as value", q}); }
    for (auto &f : forms)
      for (auto &k : targets) {
        Proof q = f.second; unsigned d0 = q.depth;
        tried++; judge(c, ref_encode(q), k, root, m, f.first.c_str());
        // depths: all near ones, some others, and those that make the bits of this key follow the path
        std::set<unsigned> ds; for (int d = -18; d <= 18; d++) { int x = (int)d0 + d; if (x >= 0 && x <= 256) ds.insert(x); } ds.insert(0); ds.insert(256); ds.insert(255);
        if (c.thorough) for (unsigned x = 0; x <= 256; x++) ds.insert(x);
        for (unsigned x : ds) { q.depth = x; tried++; judge(c, ref_encode(q), k, root, m, sfmt("%s, depth %u for %u", f.first.c_str(), x, d0).c_str()); }
        // drop each prefix (keeping the depth, and keeping the sum right)
        for (size_t i = 0; i < f.second.nodes.size() && i < 40; i++) if (f.second.nodes[i].prefix.n) {
          q = f.second; unsigned n = q.nodes[i].prefix.n;
          q.nodes[i].prefix = Bits(); tried++; judge(c, ref_encode(q), k, root, m, "prefix dropped"); q.depth = d0 >= n ? d0 - n : 0; tried++; judge(c, ref_encode(q), k, root, m, "prefix dropped, depth less");
          unsigned dd = Forge::depth_of(f.second, i);
          if (dd + n <= 256) { q = f.second; q.nodes[i].prefix = Bits(k, dd, dd + n); tried++; judge(c, ref_encode(q), k, root, m, "prefix made to fit"); }
        }
      }
  }
  c.label("forged proofs for all pairs", tried); c.st.sub += tried;
  c.nontrivial = m.size() >= 2 && tried >= 100;
}

// The library's own proofs of a database (also from history), checked against every other key and root.
static void own_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0);
    w.keys = gen_keys(s, 20); w.open();
    for (unsigned i = 0, n = 10 + s.below(40); i < n; i++) w.step();
    uint64_t tried = 0;
    for (unsigned i = 0; i < 12; i++) {
      Span sp(s);
      H32 r = w.some_root(); H32 k = w.any_key(w.hist[r]);
      api::RV p = api::prove(w.db, k, &r); if (!p.ok) continue;
      for (auto &h : w.hist) { for (auto &o : w.keys) { tried++; judge(c, p.v, o, h.first, h.second, "for another key or root"); } }
      std::vector<Map> maps{w.hist[r]}; Forge f{s, maps, w.keys, ""}; Bytes b = p.v; f.bytes(b); judge(c, b, k, r, w.hist[r], f.how.c_str());
    }
    c.label("library proofs tried on other keys and roots", tried); c.nontrivial = w.hist.size() > 1 && tried > 50;
    w.close();
  });
}
const Prop the_prop = {"C04", "forge: at least ten well-formed proofs that differ from the true one; pairs: at least two records and 100 forged proofs; own: several roots and over 50 pairings",
  {{"forge", forge_stage, 16000, 200000, 8}, {"pairs", pairs_stage, 700, 3000, 8}, {"own", own_stage, 1500, 8000, 8}}};
