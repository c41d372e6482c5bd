// Altered proofs: built from true ones, structurally and in bytes.
#pragma once
#include "gen.hh"

struct Forge {
  Src &s;
  const std::vector<Map> &maps;   // record sets to take material from
  const Keys &keys;
  std::string how;
  void note(const std::string &x) { how += (how.empty() ? "" : ", ") + x; }

  static void resize(Bits &b, unsigned n) {
    b.n = n; b.d.resize((n + 7) / 8, 0);
    if (n % 8) b.d.back() &= ~(0xff >> (n % 8));
  }
  static void flip(Bits &b, unsigned i) { b.d[i >> 3] ^= 0x80 >> (i & 7); }
  // Hash of the subtree that the terminal and the last nodes of p stand for (levels counted from the top).
  static bool subtree(const Proof &p, const H32 &key, size_t level, H32 &h) {
    Proof q = p;
    switch (p.type) {
      case P_DEADEND: h = H32{}; break;
      case P_SHORT: h = ref_internal(p.prefix, p.left, p.right); break;
      case P_COLLISION: h = ref_leaf_vh(p.key, p.hash); break;
      default: h = ref_leaf(key, p.value);
    }
    unsigned d = p.depth;
    for (size_t i = p.nodes.size(); i-- > level;) {
      if (d < p.nodes[i].prefix.n + 1) return false;
      d--;
      h = key_bit(key, d) ? ref_internal(p.nodes[i].prefix, p.nodes[i].hash, h) : ref_internal(p.nodes[i].prefix, h, p.nodes[i].hash);
      d -= p.nodes[i].prefix.n;
    }
    return true;
  }
  static unsigned depth_of(const Proof &p, size_t level) { unsigned d = 0; for (size_t i = 0; i < level; i++) d += p.nodes[i].prefix.n + 1; return d; }

  void structure(Proof &p, const H32 &src, const H32 &key) {
    Span sp(s);
    static const unsigned w[] = {3, 4, 6, 4, 3, 6, 4, 3, 3, 4, 2, 3};
    switch (s.weighted(w, 12)) {
      case 0: { // another type, with whatever the fields hold
        unsigned t = s.below(4); note(sfmt("retype %u>%u", p.type, t));
        if (t == P_COLLISION) { if (p.key == H32{}) p.key = s.chance(1, 2) ? key : src; if (p.type == P_EXISTS) p.hash = ref_hash(p.value); else if (p.type == P_SHORT) { p.key = p.left; p.hash = p.right; } }
        if (t == P_SHORT) { if (p.prefix.n == 0) { p.prefix = Bits(key, 0, s.range(1, 9)); if (s.chance(1, 2)) flip(p.prefix, s.below(p.prefix.n)); } if (p.type == P_COLLISION) { p.left = p.key; p.right = p.hash; } if (p.type == P_EXISTS) { p.left = src; p.right = ref_hash(p.value); } }
        if (t == P_EXISTS && p.type != P_EXISTS) { p.value = s.chance(1, 2) ? Bytes((char *)p.hash.data(), 32) : gen_value(s); }
        p.type = t; break; }
      case 1: { // another depth
        int d = s.chance(1, 3) ? (int)s.below(257) : (int)p.depth + (int)s.range(1, 16) - (s.chance(1, 2) ? 17 : 0);
        if (d < 0) d = 0; if (d > 256) d = 256;
        note(sfmt("depth %u>%d", p.depth, d)); p.depth = d; break; }
      case 2: { // cut the path and present what is below as the end of it
        if (p.nodes.empty()) break;
        size_t lv = s.below(p.nodes.size()); H32 below; Bits pre = p.nodes[lv].prefix; H32 sib = p.nodes[lv].hash;
        if (!subtree(p, src, lv + 1, below)) break;
        unsigned at = depth_of(p, lv), bitat = at + pre.n;
        unsigned kind = s.below(4);
        Proof q; q.nodes.assign(p.nodes.begin(), p.nodes.begin() + lv); q.depth = at;
        bool b = bitat < 256 ? key_bit(src, bitat) : 0;
        H32 l = b ? sib : below, r = b ? below : sib;
        if (kind == 0) { q.type = P_SHORT; q.prefix = pre; q.left = l; q.right = r; note(sfmt("cut at %zu as internal", lv)); if (pre.n == 0) { q.prefix = Bits(key, at < 255 ? at : 255, at < 255 ? at + 1 : 256); if (s.chance(1, 2)) flip(q.prefix, 0); } else if (s.chance(1, 4)) flip(q.prefix, s.below(q.prefix.n)); }
        else if (kind == 1) { q.type = P_COLLISION; q.key = l; q.hash = r; note(sfmt("cut at %zu as leaf", lv)); }
        else if (kind == 2) { q.type = P_DEADEND; note(sfmt("cut at %zu as nothing", lv)); }
        else { q.type = P_EXISTS; q.value = Bytes((char *)l.data(), 32) + Bytes((char *)r.data(), 32); note(sfmt("cut at %zu as value", lv)); }
        p = q; break; }
      case 3: { // the key's own leaf as somebody else's
        if (p.type == P_EXISTS) { p.type = P_COLLISION; p.key = src; p.hash = ref_hash(p.value); note("own leaf as collision"); }
        else if (p.type == P_COLLISION) { p.type = P_EXISTS; for (auto &m : maps) { auto it = m.find(p.key); if (it != m.end() && s.chance(1, 2)) p.value = it->second; } note("collision as value"); }
        else { p.key = key; p.type = P_COLLISION; p.hash = ref_hash(Bytes()); note("collision with own key"); }
        break; }
      case 4: { // leaf as internal
        if (p.type == P_EXISTS) { p.left = src; p.right = ref_hash(p.value); } else if (p.type == P_COLLISION) { p.left = p.key; p.right = p.hash; } else { p.left = key; p.right = H32{}; }
        p.type = P_SHORT; unsigned n = s.range(1, 8), d = std::min(p.depth, 256 - n); p.prefix = Bits(key, d, d + n); flip(p.prefix, s.below(n)); note("leaf as internal"); break; }
      case 5: { // prefixes
        std::vector<Bits *> v; for (auto &n : p.nodes) v.push_back(&n.prefix); if (p.type == P_SHORT) v.push_back(&p.prefix);
        if (v.empty()) break;
        Bits &b = *v[s.below(v.size())]; bool inpath = !(p.type == P_SHORT && &b == &p.prefix);
        if (b.n && s.chance(1, 2)) { unsigned i = s.chance(1, 2) ? b.n - 1 : s.below(b.n); flip(b, i); note(sfmt("prefix bit %u", i)); }
        else {
          unsigned old = b.n, n = s.chance(1, 2) ? (old ? (old - 1) / 8 * 8 + 1 + s.below(8) : s.below(9)) : s.below(40);
          if (!inpath && n == 0) n = 1;
          std::vector<uint8_t> keep = b.d; resize(b, n); for (unsigned i = old; i < n && i < 256; i++) if (s.chance(1, 4)) flip(b, i);
          if (inpath && s.chance(3, 4)) { int d = (int)p.depth + (int)n - (int)old; if (d >= 0 && d <= 256) p.depth = d; }
          note(sfmt("prefix of %u bits made %u", old, n));
        }
        break; }
      case 6: { // value
        if (p.type != P_EXISTS) { p.hash = s.chance(1, 2) ? ref_hash(gen_value(s)) : rnd_key(s.seed()); note("other hash"); break; }
        unsigned k = s.below(6);
        if (k == 0) p.value = gen_value(s);
        else if (k == 1 && p.value.size()) p.value.pop_back();
        else if (k == 2 && p.value.size() < VALUE_MAX) p.value.push_back(s.chance(1, 2) ? 0 : s.below(256));
        else if (k == 3 && p.value.size()) p.value[s.below(p.value.size())] ^= 1 << s.below(8);
        else if (k == 4) p.value.clear();
        else for (auto &m : maps) { auto it = m.find(key); if (it != m.end() && s.chance(1, 2)) p.value = it->second; }
        note("value"); break; }
      case 7: { // nodes dropped, doubled, swapped
        if (p.nodes.empty()) break;
        size_t i = s.below(p.nodes.size()), j = s.below(p.nodes.size()); unsigned k = s.below(4);
        if (k == 0) { unsigned n = p.nodes[i].prefix.n + 1; p.nodes.erase(p.nodes.begin() + i); if (s.chance(1, 2) && p.depth >= n) p.depth -= n; note("node dropped"); }
        else if (k == 1) { PNode n = p.nodes[i]; if (p.nodes.size() < 256) p.nodes.insert(p.nodes.begin() + j, n); if (s.chance(1, 2) && p.depth + n.prefix.n + 1 <= 256) p.depth += n.prefix.n + 1; note("node doubled"); }
        else if (k == 2) { std::swap(p.nodes[i], p.nodes[j]); note("nodes swapped"); }
        else { std::reverse(p.nodes.begin(), p.nodes.end()); note("nodes reversed"); }
        break; }
      case 8: { // hashes
        std::vector<H32 *> v; for (auto &n : p.nodes) v.push_back(&n.hash);
        if (p.type == P_SHORT) { v.push_back(&p.left); v.push_back(&p.right); } if (p.type == P_COLLISION) { v.push_back(&p.hash); v.push_back(&p.key); }
        if (v.empty()) break;
        H32 &h = *v[s.below(v.size())];
        if (s.chance(1, 3)) { std::swap(h, *v[s.below(v.size())]); note("hashes swapped"); } else { unsigned i = s.below(256); key_set(h, i, !key_bit(h, i)); note("hash bit"); }
        break; }
      case 9: { // the end of another proof on this path
        const Map &m = maps[s.below(maps.size())]; H32 k2 = keys[s.below(keys.size())]; Proof q = ref_prove(m, k2);
        p.type = q.type; p.prefix = q.prefix; p.left = q.left; p.right = q.right; p.key = q.key; p.hash = q.hash; p.value = q.value; if (s.chance(1, 2)) p.depth = q.depth;
        note("other end"); break; }
      case 10: { // parts of another path
        const Map &m = maps[s.below(maps.size())]; H32 k2 = keys[s.below(keys.size())]; Proof q = ref_prove(m, k2);
        size_t a = s.below(p.nodes.size() + 1), b = s.below(q.nodes.size() + 1);
        std::vector<PNode> n(p.nodes.begin(), p.nodes.begin() + a); n.insert(n.end(), q.nodes.begin() + b, q.nodes.end()); if (n.size() > 256) n.resize(256); p.nodes = n;
        if (s.chance(1, 2)) p.depth = std::min(256u, depth_of(p, p.nodes.size()));
        note("other path"); break; }
      case 11: { // walk on below the end with nodes made up from it
        if (p.nodes.size() > 250) break;
        PNode n; if (p.type == P_SHORT) { n.prefix = p.prefix; n.hash = s.chance(1, 2) ? p.left : p.right; if (p.depth + n.prefix.n + 1 > 256) break; p.nodes.push_back(n); p.depth += n.prefix.n + 1; unsigned t = s.below(3); p.type = t == 0 ? P_DEADEND : t == 1 ? P_EXISTS : P_COLLISION; if (p.type == P_COLLISION) p.key = src; }
        else { n.hash = s.chance(1, 2) ? H32{} : p.hash; if (p.depth >= 256) break; p.nodes.push_back(n); p.depth++; }
        note("path lengthened"); break; }
    }
  }
  void bytes(Bytes &b) {
    Span sp(s);
    if (b.empty()) { b.push_back(0); }
    switch (s.below(8)) {
      case 0: { size_t i = s.chance(1, 2) ? s.below(std::min<size_t>(b.size(), 12)) : s.below(b.size()); b[i] ^= 1 << s.below(8); note(sfmt("bit of byte %zu", i)); break; }
      case 1: { size_t i = s.below(b.size()); b[i] = s.below(256); note(sfmt("byte %zu", i)); break; }
      case 2: { size_t n = s.below(b.size() + 1); b.resize(n); note(sfmt("cut to %zu", n)); break; }
      case 3: { size_t n = s.range(1, s.chance(1, 8) ? 500 : 3); b.append(n, s.chance(1, 2) ? 0 : s.below(256)); note(sfmt("%zu appended", n)); break; }
      case 4: { size_t i = s.below(b.size() + 1); b.insert(i, 1, (char)s.below(256)); note(sfmt("byte inserted at %zu", i)); break; }
      case 5: { size_t i = s.below(b.size()); b.erase(i, s.range(1, 32)); note(sfmt("bytes removed at %zu", i)); break; }
      case 6: { Bytes q = ref_encode(ref_prove(maps[s.below(maps.size())], keys[s.below(keys.size())])); size_t i = s.below(b.size() + 1), j = s.below(q.size() + 1); b = b.substr(0, i) + q.substr(j); note(sfmt("spliced at %zu/%zu", i, j)); break; }
      default: { if (b.size() >= 4) { unsigned v = s.pickl({0, 1, 2, 0x3fff, 0x4000, 0x8000, 0xc000, 0xffff, 255, 256, 257, 0x40ff, 0xc100, 0x4101}); size_t at = s.below(2) * 2; b[at] = v; b[at + 1] = v >> 8; note(sfmt("field %zu = %u", at / 2, v)); } break; }
    }
  }
};
