#include "ref.hh"
#include <stdio.h>
#include <stdlib.h>

static const uint64_t IV[8] = {
  0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
  0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL };
static const uint8_t SIGMA[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
  {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
  {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
  {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
  {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0} };
static inline uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

static void F(uint64_t h[8], const uint8_t *blk, uint64_t t, bool last) {
  uint64_t m[16], v[16];
  for (int i = 0; i < 16; i++) { m[i] = 0; for (int j = 7; j >= 0; j--) m[i] = m[i] << 8 | blk[i * 8 + j]; }
  for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
  v[12] ^= t;
  if (last) v[14] = ~v[14];
  for (int r = 0; r < 12; r++) {
    const uint8_t *s = SIGMA[r % 10];
#define G(a, b, c, d, x, y) \
    v[a] += v[b] + (x); v[d] = rotr(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 24); \
    v[a] += v[b] + (y); v[d] = rotr(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 63);
    G(0, 4, 8, 12, m[s[0]], m[s[1]]) G(1, 5, 9, 13, m[s[2]], m[s[3]])
    G(2, 6, 10, 14, m[s[4]], m[s[5]]) G(3, 7, 11, 15, m[s[6]], m[s[7]])
    G(0, 5, 10, 15, m[s[8]], m[s[9]]) G(1, 6, 11, 12, m[s[10]], m[s[11]])
    G(2, 7, 8, 13, m[s[12]], m[s[13]]) G(3, 4, 9, 14, m[s[14]], m[s[15]])
#undef G
  }
  for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}

void ref_blake2b(uint8_t *out, size_t outlen, const void *key, size_t keylen, const void *in_, size_t inlen) {
  const uint8_t *in = (const uint8_t *)in_;
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = IV[i];
  h[0] ^= 0x01010000 ^ (keylen << 8) ^ outlen;
  uint64_t t = 0;
  uint8_t blk[128];
  if (keylen) {
    memset(blk, 0, 128);
    memcpy(blk, key, keylen);
    t = 128;
    F(h, blk, t, inlen == 0);
  }
  if (inlen || !keylen) {
    size_t left = inlen;
    do {
      size_t n = left < 128 ? left : 128;
      memset(blk, 0, 128);
      if (n) memcpy(blk, in, n);
      in += n; left -= n; t += n;
      F(h, blk, t, left == 0);
    } while (left);
  }
  uint8_t full[64];
  for (int i = 0; i < 64; i++) full[i] = h[i / 8] >> (8 * (i % 8));
  memcpy(out, full, outlen);
}

H32 ref_hash(const void *in, size_t n) { H32 o; ref_blake2b(o.data(), 32, nullptr, 0, in, n); return o; }
H32 ref_hash(const Bytes &b) { return ref_hash(b.data(), b.size()); }

H32 ref_leaf_vh(const H32 &key, const H32 &vh) {
  uint8_t b[65]; b[0] = 0; memcpy(b + 1, key.data(), 32); memcpy(b + 33, vh.data(), 32);
  return ref_hash(b, 65);
}
H32 ref_leaf(const H32 &key, const Bytes &v) { return ref_leaf_vh(key, ref_hash(v)); }

H32 ref_internal(const Bits &p, const H32 &l, const H32 &r) {
  uint8_t b[200]; size_t n = 0;
  if (p.n == 0) b[n++] = 1;
  else {
    b[n++] = 2; b[n++] = p.n & 255; b[n++] = p.n >> 8;
    memcpy(b + n, p.d.data(), p.d.size()); n += p.d.size();
  }
  memcpy(b + n, l.data(), 32); n += 32;
  memcpy(b + n, r.data(), 32); n += 32;
  return ref_hash(b, n);
}

struct Rec { const H32 *k; const Bytes *v; };
static std::vector<Rec> recs(const Map &m) { std::vector<Rec> v; v.reserve(m.size()); for (auto &e : m) v.push_back({&e.first, &e.second}); return v; }

static unsigned common(const H32 &a, const H32 &b, unsigned from) {
  while (from < 256 && key_bit(a, from) == key_bit(b, from)) from++;
  return from;
}
static size_t split(const std::vector<Rec> &v, size_t lo, size_t hi, unsigned bit) {
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (key_bit(*v[mid].k, bit)) hi = mid; else lo = mid + 1; }
  return lo;
}
static H32 root_of(const std::vector<Rec> &v, size_t lo, size_t hi, unsigned depth) {
  if (lo == hi) return H32{};
  if (hi - lo == 1) return ref_leaf(*v[lo].k, *v[lo].v);
  unsigned d = common(*v[lo].k, *v[hi - 1].k, depth);
  size_t mid = split(v, lo, hi, d);
  return ref_internal(Bits(*v[lo].k, depth, d), root_of(v, lo, mid, d + 1), root_of(v, mid, hi, d + 1));
}
H32 ref_root(const Map &m) { auto v = recs(m); return root_of(v, 0, v.size(), 0); }

Proof ref_prove(const Map &m, const H32 &key) {
  auto v = recs(m);
  Proof p;
  size_t lo = 0, hi = v.size();
  unsigned depth = 0;
  for (;;) {
    p.depth = depth;
    if (lo == hi) { p.type = P_DEADEND; return p; }
    if (hi - lo == 1) {
      if (*v[lo].k == key) { p.type = P_EXISTS; p.value = *v[lo].v; }
      else { p.type = P_COLLISION; p.key = *v[lo].k; p.hash = ref_hash(*v[lo].v); }
      return p;
    }
    unsigned d = common(*v[lo].k, *v[hi - 1].k, depth);
    size_t mid = split(v, lo, hi, d);
    Bits pre(*v[lo].k, depth, d);
    bool has = true;
    for (unsigned i = depth; i < d; i++) if (key_bit(key, i) != key_bit(*v[lo].k, i)) has = false;
    if (!has) {
      p.type = P_SHORT; p.prefix = pre;
      p.left = root_of(v, lo, mid, d + 1); p.right = root_of(v, mid, hi, d + 1);
      return p;
    }
    if (key_bit(key, d)) { p.nodes.push_back({pre, root_of(v, lo, mid, d + 1)}); lo = mid; }
    else { p.nodes.push_back({pre, root_of(v, mid, hi, d + 1)}); hi = mid; }
    depth = d + 1;
  }
}

static void put16(Bytes &o, unsigned v) { o.push_back(v & 255); o.push_back(v >> 8 & 255); }
static void putbits(Bytes &o, const Bits &b, bool lng) {
  if (b.n >= 0x80 || lng) o.push_back(0x80 | b.n >> 8);
  o.push_back(b.n & 255);
  o.append((const char *)b.d.data(), b.d.size());
}
Bytes ref_encode(const Proof &p, const EncOpt &o) {
  Bytes r;
  put16(r, p.type << 14 | p.depth);
  put16(r, o.count >= 0 ? o.count : p.nodes.size());
  size_t at = r.size();
  r.append((p.nodes.size() + 7) / 8, '\0');
  for (size_t i = 0; i < p.nodes.size(); i++) {
    if (p.nodes[i].prefix.n) {
      r[at + i / 8] |= 0x80 >> (i % 8);
      putbits(r, p.nodes[i].prefix, o.long_bits);
    }
    r.append((const char *)p.nodes[i].hash.data(), 32);
  }
  if (o.bitmap_junk && p.nodes.size() % 8) r[at + p.nodes.size() / 8] |= o.bitmap_junk & (0xff >> (p.nodes.size() % 8));
  switch (p.type) {
    case P_SHORT: putbits(r, p.prefix, o.long_bits); r.append((const char *)p.left.data(), 32); r.append((const char *)p.right.data(), 32); break;
    case P_COLLISION: r.append((const char *)p.key.data(), 32); r.append((const char *)p.hash.data(), 32); break;
    case P_EXISTS: put16(r, p.value.size()); r += p.value; break;
  }
  return r;
}

struct Rd { const uint8_t *p; size_t n; bool bad = false;
  uint8_t u8() { if (n < 1) { bad = true; return 0; } n--; return *p++; }
  unsigned u16() { unsigned a = u8(), b = u8(); return a | b << 8; }
  bool get(void *o, size_t k) { if (n < k) { bad = true; return false; } memcpy(o, p, k); p += k; n -= k; return true; }
};
static bool getbits(Rd &r, Bits &b, int &stray) {
  unsigned n = r.u8();
  if (r.bad) return false;
  if (n & 0x80) { n = (n & 0x7f) << 8 | r.u8(); if (r.bad || n < 0x80) return false; }
  if (n == 0 || n > 256) return false;
  b.n = n; b.d.resize((n + 7) / 8);
  if (!r.get(b.d.data(), b.d.size())) return false;
  if (!b.clean()) stray = 1;
  return true;
}
int ref_decode(const Bytes &raw, Proof &p) {
  Rd r{(const uint8_t *)raw.data(), raw.size()};
  int stray = 0;
  p = Proof();
  unsigned f = r.u16(), count = r.u16();
  if (r.bad) return 0;
  p.type = f >> 14; p.depth = f & 0x3fff;
  if (p.depth > 256 || count > 256) return 0;
  std::vector<uint8_t> bm((count + 7) / 8);
  if (!bm.empty() && !r.get(bm.data(), bm.size())) return 0;
  for (size_t i = count; i < bm.size() * 8; i++) if (bm[i / 8] & (0x80 >> (i % 8))) stray = 1;
  for (unsigned i = 0; i < count; i++) {
    PNode nd;
    if (bm[i / 8] & (0x80 >> (i % 8))) if (!getbits(r, nd.prefix, stray)) return 0;
    if (!r.get(nd.hash.data(), 32)) return 0;
    p.nodes.push_back(nd);
  }
  switch (p.type) {
    case P_SHORT:
      if (!getbits(r, p.prefix, stray) || !r.get(p.left.data(), 32) || !r.get(p.right.data(), 32)) return 0;
      break;
    case P_COLLISION:
      if (!r.get(p.key.data(), 32) || !r.get(p.hash.data(), 32)) return 0;
      break;
    case P_EXISTS: {
      unsigned n = r.u16();
      if (r.bad || n > VALUE_MAX) return 0;
      p.value.resize(n);
      if (n && !r.get(&p.value[0], n)) return 0;
      break;
    }
  }
  if (r.n) return 0;
  return stray ? 2 : 1;
}

int ref_verify_root(const Proof &p, const H32 &key, H32 &h) {
  switch (p.type) {
    case P_DEADEND: h = H32{}; break;
    case P_SHORT: {
      bool has = p.depth + p.prefix.n <= 256;
      for (unsigned i = 0; has && i < p.prefix.n; i++) has = p.prefix.get(i) == key_bit(key, p.depth + i);
      if (has) return 3; // same path
      h = ref_internal(p.prefix, p.left, p.right);
      break;
    }
    case P_COLLISION: if (p.key == key) return 2; h = ref_leaf_vh(p.key, p.hash); break;
    case P_EXISTS: h = ref_leaf(key, p.value); break;
  }
  unsigned depth = p.depth;
  for (size_t i = p.nodes.size(); i--;) {
    const PNode &n = p.nodes[i];
    if (depth < n.prefix.n + 1) return 4;
    depth--;
    h = key_bit(key, depth) ? ref_internal(n.prefix, n.hash, h) : ref_internal(n.prefix, h, n.hash);
    depth -= n.prefix.n;
    for (unsigned j = 0; j < n.prefix.n; j++) if (n.prefix.get(j) != key_bit(key, depth + j)) return 5;
  }
  if (depth != 0) return 6;
  return 0;
}
int ref_verify(const Proof &p, const H32 &key, const H32 &root) {
  H32 h;
  int r = ref_verify_root(p, key, h);
  if (r) return r;
  return h == root ? 0 : 1;
}

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t *)p)[i]; s += d[b >> 4]; s += d[b & 15]; }
  return s;
}

void ref_selftest() {
  // From RFC 7693 and the BLAKE2 reference vectors.
  uint8_t o[64];
  ref_blake2b(o, 64, nullptr, 0, "abc", 3);
  if (hex(o, 64) != "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923") { fprintf(stderr, "reference blake2b is wrong\n"); exit(2); }
  if (hex(ref_hash("", 0)) != "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8") { fprintf(stderr, "reference blake2b-256 is wrong\n"); exit(2); }
}
