// Generators: keys, values, change sets.
#pragma once
#include "engine.hh"
#include "ref.hh"
#include <algorithm>
#include <set>

typedef std::vector<H32> Keys;

inline H32 rnd_key(uint64_t seed) { H32 k; Rng r(seed * 0x9e3779b97f4a7c15ULL + 11); r.fill(k.data(), 32); return k; }

// Distinct keys of one shape. At least 2, at most max.
inline Keys gen_keys(Src &s, size_t max, int shape = -1) {
  Span sp(s);
  std::set<H32> k; Keys out;
  auto add = [&](const H32 &h) { if (out.size() < max && k.insert(h).second) out.push_back(h); };
  if (shape < 0) { static const unsigned w[] = {4, 3, 3, 3, 2, 3, 2}; shape = s.weighted(w, 7); }
  size_t n = 2 + (s.chance(1, 3) ? s.below(max - 1) : s.below(std::min<size_t>(max - 1, 24)));
  uint64_t sd = s.seed();
  H32 base = s.chance(1, 4) ? H32{} : rnd_key(sd);
  switch (shape) {
    case 0: for (size_t i = 0; out.size() < n; i++) add(rnd_key(mix64(sd) + i)); break;
    case 1: { // dense tail
      unsigned bytes = s.range(1, 2);
      for (size_t i = 0; out.size() < n && i < 4000; i++) { H32 h = base; uint64_t r = mix64(sd + i); for (unsigned j = 0; j < bytes; j++) h[31 - j] = (r >> (8 * j)) & (bytes == 1 ? 0xff : 0x3f); add(h); }
      break; }
    case 2: { // chain: the base and its neighbours at many depths
      add(base);
      unsigned step = s.pickl({1, 2, 5, 8, 17}), at = s.below(8);
      for (unsigned i = at; i < 256 && out.size() < max; i += step) { H32 h = base; key_set(h, i, !key_bit(h, i)); add(h); }
      for (unsigned i = 255; i > 247; i--) { H32 h = base; key_set(h, i, !key_bit(h, i)); add(h); }
      break; }
    case 3: { // clusters with long shared prefixes
      unsigned nc = s.range(1, 4); std::vector<H32> cb; std::vector<unsigned> cl;
      for (unsigned i = 0; i < nc; i++) { cb.push_back(rnd_key(sd + 1000 + i)); cl.push_back(s.pickl({1, 6, 7, 8, 9, 15, 16, 17, 63, 100, 127, 128, 129, 200, 247, 248, 249, 250, 251, 252, 253, 254, 255})); }
      for (size_t i = 0; out.size() < n && i < 4 * n + 8; i++) {
        unsigned c = i % nc; H32 h = rnd_key(mix64(sd ^ 5) + i);
        for (unsigned b = 0; b < cl[c]; b++) key_set(h, b, key_bit(cb[c], b));
        add(h);
      }
      break; }
    case 4: { // all zeros, all ones, single bits
      H32 z{}, o; o.fill(0xff); add(z); add(o);
      for (unsigned b : {0u, 1u, 7u, 8u, 9u, 127u, 128u, 254u, 255u}) { H32 h{}; key_set(h, b, 1); add(h); h = o; key_set(h, b, 0); add(h); }
      for (size_t i = 0; out.size() < n; i++) add(rnd_key(sd + 77 + i));
      break; }
    case 5: { // random tree shape: each key leaves an earlier one at a random depth
      add(base);
      for (size_t i = 0; out.size() < n && i < 4 * n + 8; i++) {
        uint64_t r = mix64(sd + 31 * i); H32 h = out[r % out.size()]; unsigned b = (r >> 16) & 255;
        if (((r >> 40) & 3) == 0) b = 255 - (b & 7);
        key_set(h, b, !key_bit(h, b));
        if ((r >> 42) & 1) { H32 t = rnd_key(r); for (unsigned q = b + 1; q < 256; q++) key_set(h, q, key_bit(t, q)); }
        add(h);
      }
      break; }
    default: { // mixture
      for (size_t i = 0; out.size() < n && i < 4 * n + 8; i++) {
        uint64_t r = mix64(sd + 7 * i); H32 h = (r & 1) ? rnd_key(r) : base;
        if (!(r & 1)) { h[31] = r >> 8; if (r & 2) h[30] = r >> 16; if ((r & 12) == 12) h[0] ^= 0x80; }
        add(h);
      }
      break; }
  }
  if (out.size() < 2) { add(rnd_key(1)); add(rnd_key(2)); }
  return out;
}

// A key that is close to one of ks (shares a long prefix), or unrelated.
inline H32 gen_near(Src &s, const Keys &ks) {
  H32 h = ks[s.below(ks.size())];
  unsigned b = s.below(3) == 0 ? 255 - s.below(8) : s.below(256);
  key_set(h, b, !key_bit(h, b));
  if (s.chance(1, 3)) { H32 t = rnd_key(s.seed()); for (unsigned q = b + 1; q < 256; q++) key_set(h, q, key_bit(t, q)); }
  return h;
}

inline Bytes mk_value(size_t n, uint64_t seed) {
  Bytes v(n, 0);
  unsigned kind = seed % 5;
  if (kind == 0) { for (size_t i = 0; i < n; i++) v[i] = "value"[i % 5]; if (n) v[0] = 'a' + (seed / 5) % 26; }
  else if (kind == 1) { memset(&v[0], (int)(seed / 5) & 0xff, n); }
  else if (n) { Rng r(seed); r.fill(&v[0], n); }
  return v;
}
inline Bytes gen_value(Src &s) {
  Span sp(s);
  static const unsigned w[] = {8, 2, 4, 2, 1};
  size_t n;
  switch (s.weighted(w, 5)) {
    case 0: n = 1 + s.below(40); break;
    case 1: n = 0; break;
    case 2: n = s.pickl({1, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 767, 768, 769, 1021, 1022, 1023}); break;
    case 3: n = s.below(VALUE_MAX + 1); break;
    default: n = VALUE_MAX; break;
  }
  return mk_value(n, s.below(1000) < 900 ? s.below(1 << 20) : s.below(8));
}

// What one transaction does.
struct Change { H32 key; bool del; Bytes v; };
typedef std::vector<Change> Changes;
inline Changes gen_changes(Src &s, const Keys &ks, Map &m, size_t max, unsigned del_pct = 25) {
  Changes cs; size_t n = s.small(max + 1);
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    H32 k = ks[s.below(ks.size())];
    bool del = s.below(100) >= 100 - del_pct;
    if (del) {
      if (!m.count(k)) { if (m.empty()) continue; auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); k = it->first; }
      cs.push_back({k, true, ""}); m.erase(k);
    } else { Bytes v = gen_value(s); cs.push_back({k, false, v}); m[k] = v; }
  }
  return cs;
}
