// The on-disk format, read and written without the library.
//   meta: 32-byte checksum key. NNNNNNNNNN: numbered data files from 1, append-only.
//   pointer (7): u16le index<<1|hi, u32le pos<<1|lo, u8 size; size = hi<<9 | lo<<8 | u8
//   seal (38, at a multiple of 38): "lkrm", pointer to the previous seal, pointer to the root node,
//     20 bytes of keyed BLAKE2b over the 18 before
//   internal node: 1 | flags<<4, [u8 bits, bytes], 2 x (pointer, hash); leaf node: 2, value pointer, key
#pragma once
#include "util.hh"
#include <set>

namespace fmt {
static const size_t SEAL = 38;
struct Ptr { uint32_t index = 0, pos = 0; unsigned size = 0; };
struct Bad { std::string why; };
[[noreturn]] inline void bad(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void bad(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); throw Bad{b}; }
inline uint32_t le(const Bytes &d, size_t o, int n) { uint32_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | (uint8_t)d[o + i]; return v; }
inline void put_le(Bytes &d, uint32_t v, int n) { for (int i = 0; i < n; i++) d += (char)(v >> (8 * i)); }
inline Ptr get_ptr(const Bytes &d, size_t o) { Ptr p; uint32_t i = le(d, o, 2), q = le(d, o + 2, 4); p.index = i >> 1; p.pos = q >> 1; p.size = (i & 1) << 9 | (q & 1) << 8 | (uint8_t)d[o + 6]; return p; }
inline void put_ptr(Bytes &d, const Ptr &p) { put_le(d, p.index << 1 | ((p.size >> 9) & 1), 2); put_le(d, p.pos << 1 | ((p.size >> 8) & 1), 4); put_le(d, p.size & 255, 1); }
struct Seal { Ptr prev, root; uint32_t index; uint32_t pos; };
inline Bytes seal_bytes(const Ptr &prev, const Ptr &root, const Bytes &key) {
  Bytes d; put_le(d, 0x6d726b6c, 4); put_ptr(d, prev); put_ptr(d, root);
  uint8_t h[20]; ref_blake2b(h, 20, key.data(), key.size(), d.data(), d.size()); d.append((char *)h, 20); return d;
}

struct Reader {
  std::map<uint32_t, Bytes> data; Bytes key;
  std::vector<Seal> seals;           // newest first
  bool strict = true;
  explicit Reader(const Files &f) {
    for (auto &x : f) {
      if (x.first == "meta") key = x.second;
      else if (x.first == "lock") {}
      else if (is_data_name(x.first)) { uint32_t i = strtoul(x.first.c_str(), 0, 10); data[i] = x.second; }
      else bad("a file named %s", x.first.c_str());
    }
    if (key.size() != 32) bad("the key has %zu bytes", key.size());
    uint32_t n = 1; for (auto &x : data) { if (x.first != n) bad("data file %u is missing", n); n++; }
    // the newest seal
    bool found = false; Seal s{};
    for (auto it = data.rbegin(); it != data.rend() && !found; ++it)
      for (size_t o = it->second.size() / SEAL * SEAL; o >= SEAL && !found;) { o -= SEAL; if (seal_at(it->first, o, s)) found = true; }
    while (found) {
      seals.push_back(s);
      if (!s.prev.index) break;
      Seal p; if (!seal_at(s.prev.index, s.prev.pos, p)) bad("the seal at %u:%u points to %u:%u, where there is none", s.index, s.pos, s.prev.index, s.prev.pos);
      if (s.prev.pos % SEAL) bad("a seal at %u:%u, not a multiple of its size", s.prev.index, s.prev.pos);
      if (p.index > s.index || (p.index == s.index && p.pos >= s.pos)) bad("the seal at %u:%u points forward", s.index, s.pos);
      s = p;
    }
  }
  bool seal_at(uint32_t i, size_t pos, Seal &s) {
    auto it = data.find(i); if (it == data.end() || pos + SEAL > it->second.size()) return false;
    Bytes d = it->second.substr(pos, SEAL); s.prev = get_ptr(d, 4); s.root = get_ptr(d, 11); s.index = i; s.pos = pos;
    return d == seal_bytes(s.prev, s.root, key) && le(d, 0, 4) == 0x6d726b6c;
  }
  Bytes at(const Ptr &p, const Seal *lim) {
    auto it = data.find(p.index); if (it == data.end()) bad("a pointer to data file %u, which does not exist", p.index);
    if ((uint64_t)p.pos + p.size > it->second.size()) bad("a pointer to %u:%u+%u, beyond the file's %zu bytes", p.index, p.pos, p.size, it->second.size());
    if (lim && (p.index > lim->index || (p.index == lim->index && p.pos + p.size > lim->pos))) bad("a pointer to %u:%u+%u, behind its own seal at %u:%u", p.index, p.pos, p.size, lim->index, lim->pos);
    return it->second.substr(p.pos, p.size);
  }
  struct Node { int type; Bits prefix; Ptr p[2]; H32 h[2]; H32 key; Ptr value; };
  Node node(const Ptr &p, const Seal *lim) {
    Bytes d = at(p, lim); Node n; size_t o = 1;
    if (d.empty()) bad("an empty node at %u:%u", p.index, p.pos);
    unsigned t = (uint8_t)d[0]; n.type = t & 15;
    if (n.type == 2) { if (t != 2 || d.size() != 40) bad("a leaf at %u:%u of %zu bytes, first byte %02x", p.index, p.pos, d.size(), t); n.value = get_ptr(d, 1); memcpy(n.key.data(), d.data() + 8, 32); return n; }
    if (n.type != 1 || (t >> 4) > 3) bad("a node at %u:%u with first byte %02x", p.index, p.pos, t);
    if (t & 16) {
      size_t bits; if (t & 32) { if (d.size() < 3) bad("a short node"); bits = le(d, 1, 2); o = 3; if (bits < 256) bad("a prefix of %zu bits in the long form", bits); } else { if (d.size() < 2) bad("a short node"); bits = (uint8_t)d[1]; o = 2; if (!bits) bad("an empty prefix that is written"); }
      if (bits > 255 || o + (bits + 7) / 8 > d.size()) bad("a prefix of %zu bits", bits);
      n.prefix.n = bits; n.prefix.d.assign(d.begin() + o, d.begin() + o + (bits + 7) / 8); o += (bits + 7) / 8;
      if (!n.prefix.clean()) bad("a prefix with stray bits");
    } else if (t & 32) bad("a long prefix that is not there");
    if (d.size() != o + 78) bad("an internal node at %u:%u of %zu bytes instead of %zu", p.index, p.pos, d.size(), o + 78);
    for (int i = 0; i < 2; i++) { n.p[i] = get_ptr(d, o); memcpy(n.h[i].data(), d.data() + o + 7, 32); o += 39; }
    return n;
  }
  Bytes value(const Node &n, const Seal *lim) { if (n.value.size > VALUE_MAX) bad("a value of %u bytes", n.value.size); return at(n.value, lim); }
  H32 walk(const Ptr &p, unsigned depth, H32 path, const Seal *lim, Map &out) {
    Node n = node(p, lim);
    if (n.type == 2) {
      for (unsigned i = 0; i < depth; i++) if (key_bit(n.key, i) != key_bit(path, i)) bad("a leaf off its path");
      Bytes v = value(n, lim); if (!out.emplace(n.key, v).second) bad("a key twice"); return ref_leaf(n.key, v);
    }
    if (depth + n.prefix.n >= 256) bad("a tree deeper than its keys");
    for (unsigned i = 0; i < n.prefix.n; i++) key_set(path, depth + i, n.prefix.get(i));
    depth += n.prefix.n;
    for (int i = 0; i < 2; i++) { H32 q = path; key_set(q, depth, i); H32 h = walk(n.p[i], depth + 1, q, lim, out); if (h != n.h[i]) bad("a node at %u:%u has the hash %s in its parent, its content says %s", n.p[i].index, n.p[i].pos, shx(n.h[i]).c_str(), shx(h).c_str()); }
    return ref_internal(n.prefix, n.h[0], n.h[1]);
  }
  // The records of a commit.
  Map records(const Seal &s, H32 *root = nullptr) {
    Map m; H32 r{}; if (s.root.index) { H32 z{}; r = walk(s.root, 0, z, strict ? &s : nullptr, m); } else if (s.root.pos || s.root.size) bad("a root pointer to 0:%u+%u", s.root.pos, s.root.size);
    if (root) *root = r; return m;
  }
  // The data files needed for work on a key below a root.
  struct Need { std::set<uint32_t> path, value, sibling, other; bool found = false; };
  Need need(const Ptr &root, const H32 &k) {
    Need w; if (!root.index) return w;
    Ptr p = root; unsigned depth = 0; Ptr sib;
    for (;;) {
      w.path.insert(p.index); Node n = node(p, nullptr);
      if (n.type == 2) { if (n.key == k) { w.found = true; w.value.insert(n.value.index); if (sib.index) w.sibling.insert(sib.index); } else w.other.insert(n.value.index); return w; }
      for (unsigned i = 0; i < n.prefix.n; i++) if (n.prefix.get(i) != key_bit(k, depth + i)) return w;
      depth += n.prefix.n; int b = key_bit(k, depth); sib = n.p[!b]; p = n.p[b]; depth++;
    }
  }
  void all(const Ptr &p, std::set<uint32_t> &out) { if (!p.index) return; out.insert(p.index); Node n = node(p, nullptr); if (n.type == 2) out.insert(n.value.index); else { all(n.p[0], out); all(n.p[1], out); } }
};

// Writes a history of commits in its own way: other node orders, full or
// shared subtrees, values shared or not, junk in between, any file sizes.
struct Writer {
  struct Opt { bool share = true; unsigned order = 0; unsigned junk = 0; bool reuse_values = false; size_t max = 0; };
  Files files; Bytes key; uint32_t index = 1; Bytes cur; Ptr prev; Opt o; Rng g{1};
  std::map<H32, Ptr> nodes;  // by hash, of the trees so far
  std::map<Bytes, Ptr> values;
  std::vector<std::pair<uint32_t, uint32_t>> seals;
  Writer(const Bytes &key_, const Opt &o_, uint64_t seed) : key(key_), o(o_), g(seed) {}
  void roll() { files[data_name(index)] = cur; index++; cur.clear(); }
  Ptr add(const Bytes &d) {
    if (o.junk && g.next() % 8 < o.junk) { Bytes j(g.next() % 60, 0); if (j.size()) g.fill(&j[0], j.size()); if (!o.max || cur.size() + j.size() <= o.max) cur += j; }
    if (o.max && cur.size() + d.size() > o.max && cur.size()) roll();
    Ptr p; p.index = index; p.pos = cur.size(); p.size = d.size(); cur += d; return p;
  }
  typedef Map::const_iterator It;
  Ptr tree(It a, It b, unsigned depth, H32 &hash) {
    size_t n = std::distance(a, b); It l = std::prev(b);
    if (n == 1) {
      hash = ref_leaf(a->first, a->second); if (o.share) { auto f = nodes.find(hash); if (f != nodes.end()) return f->second; }
      Ptr v; auto f = values.find(a->second); if (o.reuse_values && f != values.end()) v = f->second; else values[a->second] = v = add(a->second);
      Bytes d; d += (char)2; put_ptr(d, v); d.append((const char *)a->first.data(), 32); return nodes[hash] = add(d);
    }
    unsigned e = depth; while (key_bit(a->first, e) == key_bit(l->first, e)) e++;
    It m = a; while (!key_bit(m->first, e)) ++m;
    H32 h[2]; Ptr p[2]; int fst = o.order == 0 ? 0 : o.order == 1 ? 1 : g.next() & 1;
    for (int i = 0; i < 2; i++) { int x = i ^ fst; p[x] = x ? tree(m, b, e + 1, h[1]) : tree(a, m, e + 1, h[0]); }
    Bits pre(a->first, depth, e); hash = ref_internal(pre, h[0], h[1]);
    if (o.share) { auto f = nodes.find(hash); if (f != nodes.end()) return f->second; }
    Bytes d; d += (char)(pre.n ? 0x11 : 1); if (pre.n) { d += (char)pre.n; d.append((char *)pre.d.data(), pre.d.size()); }
    for (int i = 0; i < 2; i++) { put_ptr(d, p[i]); d.append((char *)h[i].data(), 32); }
    return nodes[hash] = add(d);
  }
  H32 commit(const Map &m) {
    H32 r{}; Ptr root; if (!o.share) nodes.clear();
    if (!m.empty()) root = tree(m.begin(), m.end(), 0, r);
    for (;;) { while (cur.size() % SEAL) cur += (char)(o.junk > 4 ? g.next() : 0); if (o.max && cur.size() + SEAL > o.max && cur.size()) { roll(); continue; } break; }
    Ptr at; at.index = index; at.pos = cur.size(); cur += seal_bytes(prev, root, key); prev = at; seals.push_back({index, at.pos}); return r;
  }
  void finish() { if (cur.size()) files[data_name(index)] = cur; files["meta"] = key; }
  void save(const std::string &dir) { finish(); mkdir(dir.c_str(), 0750); for (auto &f : files) write_file(dir + "/" + f.first, f.second); }
};
} // namespace fmt
