#include "world.hh"
#include "proofmut.hh"

struct Target { H32 key, root; Keys keys; std::vector<Map> maps; };
static Target make_target(Src &s) {
  Target t; t.keys = gen_keys(s, 24);
  Map m; for (auto &k : t.keys) if (s.chance(2, 3)) m[k] = gen_value(s);
  t.maps.push_back(m); t.root = ref_root(m); t.key = t.keys[s.below(t.keys.size())];
  return t;
}
static bool wellformed, accepted;
// One byte string against the independent decoder and verifier.
static void judge(Ctx &c, const Bytes &raw, const H32 &key, const H32 &root, const char *what) {
  Proof q; int d = ref_decode(raw, q); int r = d ? ref_verify(q, key, root) : -1;
  size_t blocks = lib_blocks();
  api::V v = api::verify(raw, key, root);
  REQUIRE(lib_blocks() == blocks, "verification keeps %zu allocations (%s, %zu bytes): sizes%s", lib_blocks() - blocks, what, raw.size(), lib_blocks_sizes().c_str());
  wellformed = d != 0; accepted = v.ok;
  if (d == 1) {
    REQUIRE(!!v.ok == (r == 0), "%s: a well-formed proof is %s, it should be %s (%s)", what, v.ok ? "accepted" : "refused", r == 0 ? "accepted" : "refused", err_name(v.ok ? r : v.err));
  } else if (d == 0) REQUIRE(!v.ok, "%s: a malformed proof of %zu bytes is accepted", what, raw.size());
  else if (r != 0) REQUIRE(!v.ok, "%s: a proof is accepted against another root", what);
  if (!v.ok) REQUIRE(v.err >= URKEL_EHASHMISMATCH && v.err <= URKEL_EINVAL, "%s: refused with %s (%d), which is no verification error", what, err_name(v.err), v.err);
  else {
    REQUIRE(!!v.exists == (q.type == P_EXISTS), "%s: an accepted proof of type %u reports exists = %d", what, q.type, v.exists);
    if (v.exists) REQUIRE(v.v == q.value, "%s: an accepted proof reports %zu bytes that are not its %zu", what, v.v.size(), q.value.size());
  }
  api::V w = api::verify(raw, key, root);
  REQUIRE(w.ok == v.ok && w.exists == v.exists && w.v == v.v && (v.ok || w.err == v.err), "%s: a second verification gives another result (%d %s, then %d %s)", what, v.ok, err_name(v.err), w.ok, err_name(w.err));
}
struct Track { Track() { track_memory = true; lib_accounting_reset(); } ~Track() { track_memory = false; } };

static void random_stage(Ctx &c) {
  Src &s = c.s; Track t_; H32 key = rnd_key(s.seed()), root = s.chance(1, 4) ? H32{} : rnd_key(s.seed() + 1);
  unsigned reached = 0;
  for (unsigned i = 0; i < 120; i++) {
    Span sp(s);
    size_t n = s.pickl({0, 1, 2, 3, 4, 5, 6, 8, 12, 36, 37, 68, 69, 70, 101, 132, 200, 400, 1100});
    if (s.chance(1, 3)) n = s.below(2000);
    Bytes b(n, 0); Rng r(s.seed() + n); if (n) r.fill(&b[0], n);
    // small header fields, so that parsing gets further
    if (n >= 4 && s.chance(3, 4)) { unsigned f = s.below(4) << 14 | (s.chance(1, 6) ? s.below(0x4000) : s.below(258)), k = s.chance(1, 6) ? s.below(0x10000) : s.chance(1, 2) ? s.below(4) : s.below(260); b[0] = f; b[1] = f >> 8; b[2] = k; b[3] = k >> 8; if (k && n >= 5) for (unsigned j = 0; j < (k + 7) / 8 && 4 + j < n; j++) b[4 + j] = s.pickl({0, 0, 0x80, 0x40, 0xff, 0x11}); }
    if (n > 0 && s.chance(1, 4)) b.resize(s.below(n + 1));
    judge(c, b, key, root, "random bytes"); if (wellformed) reached++;
    c.logf("%zu random bytes: %s", b.size(), wellformed ? "well-formed" : "malformed");
  }
  c.label("random strings", 120); c.label("random strings that are well-formed", reached);
  c.nontrivial = reached > 0;
}
static void structured_stage(Ctx &c) {
  Src &s = c.s; Track t_; Target t = make_target(s); unsigned wf = 0, acc = 0, mal = 0;
  c.logf("%zu records, %zu keys", t.maps[0].size(), t.keys.size());
  for (unsigned i = 0; i < 60; i++) {
    Span sp(s);
    H32 k = s.chance(1, 3) ? t.keys[s.below(t.keys.size())] : t.key; H32 src = s.chance(3, 4) ? k : t.keys[s.below(t.keys.size())];
    Proof p = ref_prove(t.maps[0], src); Forge f{s, t.maps, t.keys, ""};
    for (unsigned j = s.pickl({0, 0, 1, 1, 2, 3}); j > 0; j--) f.structure(p, src, k);
    EncOpt o; H32 root = t.root;
    if (s.chance(1, 10)) o.long_bits = true; if (s.chance(1, 12)) o.bitmap_junk = s.below(256);
    if (s.chance(1, 10)) o.count = s.pickl({0, 1, 255, 256, 257, 65535, (uint64_t)p.nodes.size() + 1, (uint64_t)(p.nodes.size() ? p.nodes.size() - 1 : 0)});
    if (s.chance(1, 12)) p.depth = s.pickl({255, 256, 257, 300, 511, 512, 8191, 16383});
    if (s.chance(1, 14) && p.type == P_EXISTS) p.value = mk_value(s.pickl({1022, 1023, 1024, 1025, 4000, 65535}), s.seed());
    if (s.chance(1, 14) && p.nodes.size()) { Bits &b = p.nodes[s.below(p.nodes.size())].prefix; Forge::resize(b, s.pickl({1, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 32767})); }
    if (s.chance(1, 14) && p.type == P_SHORT) Forge::resize(p.prefix, s.pickl({0, 1, 127, 128, 255, 256, 257, 300, 1000, 32767}));
    if (s.chance(1, 14) && p.nodes.size() < 200) { unsigned n = s.pickl({256, 255, 257, 300}) - p.nodes.size(); for (unsigned j = 0; j < n; j++) p.nodes.push_back({Bits(), rnd_key(j)}); if (s.chance(1, 2)) p.depth = std::min<size_t>(256, p.nodes.size()); }
    if (s.chance(1, 12) && p.type == P_SHORT && p.prefix.n % 8) p.prefix.d.back() |= 1; // padding
    // make it lead somewhere: take the root that it computes
    H32 comp; bool fits = p.depth <= 256 && p.prefix.n <= 256; for (auto &n : p.nodes) if (n.prefix.n > 256) fits = false;
    bool own = s.chance(1, 3) && fits && ref_verify_root(p, k, comp) == 0; if (own) root = comp;
    Bytes raw = ref_encode(p, o);
    for (unsigned j = s.pickl({0, 0, 0, 1, 1, 2, 3}); j > 0; j--) f.bytes(raw);
    judge(c, raw, k, root, f.how.c_str());
    c.logf("%s%s: %zu bytes, %s, %s", f.how.c_str(), own ? ", root it leads to" : "", raw.size(), wellformed ? "well-formed" : "malformed", accepted ? "accepted" : "refused");
    if (wellformed) wf++; else mal++; if (accepted) acc++;
  }
  c.label("well-formed", wf); c.label("malformed", mal); c.label("accepted", acc);
  c.nontrivial = wf >= 5 && mal >= 5 && acc >= 1;
}
// Every proper prefix, every extension and every single-byte change of some true proof.
static void systematic_stage(Ctx &c) {
  Src &s = c.s; Track t_; Target t = make_target(s);
  Bytes raw = ref_encode(ref_prove(t.maps[0], t.key));
  c.logf("true proof of %zu bytes", raw.size());
  judge(c, raw, t.key, t.root, "the true proof"); REQUIRE(accepted, "the true proof is refused");
  for (size_t n = 0; n < raw.size(); n++) { judge(c, raw.substr(0, n), t.key, t.root, "cut"); REQUIRE(!accepted, "the first %zu of %zu bytes are accepted", n, raw.size()); }
  for (size_t n = 1; n < 70; n++) { judge(c, raw + Bytes(n, n % 3 ? 0 : (char)n), t.key, t.root, "extended"); REQUIRE(!accepted, "%zu stray bytes at the end are accepted", n); }
  for (size_t i = 0; i < raw.size(); i++) {
    unsigned step = i < 40 ? 1 : 37; unsigned start = i < 40 ? 1 : 1 + s.below(36);
    if (i >= 400 && i % 16) continue;
    for (unsigned d = start; d < 256; d += step) { Bytes b = raw; b[i] ^= d; judge(c, b, t.key, t.root, "one byte changed"); }
  }
  c.label("bytes of true proofs taken apart", raw.size());
  c.nontrivial = raw.size() > 40;
}
static void huge_stage(Ctx &c) {
  Src &s = c.s; Track t_; Target t = make_target(s);
  size_t n = s.pickl({1 << 16, 1 << 20, 9000, 20000, 8 << 20});
  Bytes raw = s.chance(1, 2) ? ref_encode(ref_prove(t.maps[0], t.key)) : Bytes();
  size_t at = raw.size(); raw.resize(at + n, (char)s.pickl({0, 0xff, 0x41}));
  if (s.chance(1, 2)) { Rng r(s.seed()); r.fill(&raw[at], n); }
  judge(c, raw, t.key, t.root, "huge"); c.nontrivial = true; c.logf("%zu bytes", raw.size());
  // the largest proof there is
  Keys ks; H32 base = rnd_key(s.seed()); ks.push_back(base); Map m; m[base] = mk_value(VALUE_MAX, 2);
  for (unsigned i = 0; i < 256; i++) { H32 h = base; key_set(h, i, !key_bit(h, i)); m[h] = Bytes(1, 'x'); }
  Bytes big = ref_encode(ref_prove(m, base)); judge(c, big, base, ref_root(m), "the largest true proof"); REQUIRE(accepted, "a proof with 256 nodes and 1023 bytes is refused");
  big[s.below(big.size())] ^= 1 << s.below(8); judge(c, big, base, ref_root(m), "the largest true proof with one bit changed"); REQUIRE(!accepted, "accepted with one bit changed");
}
const Prop the_prop = {"C05", "random: at least one of 120 strings is a well-formed encoding; structured: at least five well-formed, five malformed and one accepted string; systematic: a proof of more than 40 bytes taken apart; huge: all",
  {{"structured", structured_stage, 12000, 150000, 8}, {"random", random_stage, 12000, 80000, 8}, {"systematic", systematic_stage, 250, 5000, 8}, {"huge", huge_stage, 60, 400, 8}}};
