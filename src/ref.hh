// Independent reference: BLAKE2b, canonical tree, proofs. No library code.
#pragma once
#include <stdint.h>
#include <string.h>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::array<uint8_t, 32> H32;
typedef std::string Bytes;
typedef std::map<H32, Bytes> Map;

static const size_t VALUE_MAX = 1023;

// RFC 7693, from the specification.
void ref_blake2b(uint8_t *out, size_t outlen, const void *key, size_t keylen, const void *in, size_t inlen);
H32 ref_hash(const void *in, size_t n);
H32 ref_hash(const Bytes &b);

inline int key_bit(const H32 &k, unsigned i) { return (k[i >> 3] >> (7 - (i & 7))) & 1; }
inline void key_set(H32 &k, unsigned i, int b) {
  if (b) k[i >> 3] |= 0x80 >> (i & 7);
  else k[i >> 3] &= ~(0x80 >> (i & 7));
}

struct Bits { unsigned n = 0; std::vector<uint8_t> d;
  Bits() {}
  Bits(const H32 &k, unsigned from, unsigned to) : n(to - from), d((n + 7) / 8) {
    for (unsigned i = 0; i < n; i++) if (key_bit(k, from + i)) d[i >> 3] |= 0x80 >> (i & 7);
  }
  int get(unsigned i) const { return (d[i >> 3] >> (7 - (i & 7))) & 1; }
  bool clean() const { return n % 8 == 0 || (d.back() & (0xff >> (n % 8))) == 0; }
};

H32 ref_leaf_vh(const H32 &key, const H32 &vhash);
H32 ref_leaf(const H32 &key, const Bytes &value);
H32 ref_internal(const Bits &p, const H32 &l, const H32 &r);
H32 ref_root(const Map &m);

// Proofs.
enum { P_DEADEND = 0, P_SHORT = 1, P_COLLISION = 2, P_EXISTS = 3 };
struct PNode { Bits prefix; H32 hash; };
struct Proof {
  unsigned type = 0, depth = 0;
  std::vector<PNode> nodes;
  Bits prefix; H32 left{}, right{};
  H32 key{}, hash{};
  Bytes value;
};
Proof ref_prove(const Map &m, const H32 &key);
// The encoder does what it is told, also with fields out of range.
struct EncOpt { bool long_bits = false; int count = -1; uint8_t bitmap_junk = 0; };
Bytes ref_encode(const Proof &p, const EncOpt &o = EncOpt());
// 1: well-formed, 0: malformed, 2: well-formed except for stray padding bits.
int ref_decode(const Bytes &raw, Proof &p);
// Hash that the proof leads to (empty optional = refused on the way).
// Error codes as in urkel.h, 0 = ok.
int ref_verify(const Proof &p, const H32 &key, const H32 &root);
int ref_verify_root(const Proof &p, const H32 &key, H32 &computed);

std::string hex(const void *p, size_t n);
inline std::string hex(const H32 &h) { return hex(h.data(), 32); }
inline std::string shx(const H32 &h) { return hex(h.data(), 4); }
// Keys often differ only in their tails.
inline std::string kx(const H32 &h) { return hex(h.data(), 4) + "~" + hex(h.data() + 28, 4); }

void ref_selftest();
