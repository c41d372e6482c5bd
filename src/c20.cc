#include "api.hh"
#include <pthread.h>
#include <sys/mman.h>

static void lengths_stage(Ctx &c) {
  Src &s = c.s;
  size_t from = (c.idx % 512) * 16; // every length to 8191
  uint64_t sd = s.seed();
  for (size_t n = from; n < from + 16; n++) {
    size_t off = mix64(sd + n) % 33;
    Buf b(n + off); Rng r(sd + n); r.fill(b.p, n + off); // the data ends where the allocation ends
    Buf o(32 + off % 5); Bytes copy = b.s(n + off);
    LIBVOID(urkel_hash(o.p + off % 5, b.p + off, n));
    H32 g; memcpy(g.data(), o.p + off % 5, 32); H32 e = ref_hash(b.p + off, n);
    REQUIRE(g == e, "hash of %zu bytes at offset %zu: %s instead of %s", n, off, hex(g).c_str(), hex(e).c_str());
    REQUIRE(b.s(n + off) == copy, "hashing %zu bytes changed the input", n);
  }
  c.logf("lengths %zu to %zu, offsets mod 33", from, from + 15);
  c.nontrivial = true; c.label("lengths hashed", 16);
}
// Structured data, chains of hashes, in-place output.
static void mix_stage(Ctx &c) {
  Src &s = c.s;
  H32 last{};
  unsigned rounds = 1 + s.below(12);
  for (unsigned i = 0; i < rounds; i++) {
    Span sp(s);
    size_t n = s.below(4) == 0 ? s.below(300000) : s.below(2) ? s.pickl({0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 255, 256, 257, 383, 384, 385, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}) : s.below(600);
    Bytes v; unsigned kind = s.below(5); uint64_t sd = s.seed();
    switch (kind) {
      case 0: v = Bytes(n, 0); break;
      case 1: v = Bytes(n, (char)0xff); break;
      case 2: v = Bytes(n, (char)sd); break;
      case 3: v.resize(n); { Rng r(sd); if (n) r.fill(&v[0], n); } break;
      default: v = Bytes(n, 0); if (n) v[sd % n] = 1 << (sd >> 20) % 8; break;
    }
    if (s.chance(1, 3)) memcpy(n >= 32 ? &v[0] : (v.resize(32), &v[0]), last.data(), 32);
    c.logf("hash of %zu bytes (kind %u)", v.size(), kind);
    H32 g = api::hash(v.data(), v.size()), e = ref_hash(v);
    REQUIRE(g == e, "hash of %zu bytes (kind %u): %s instead of %s", v.size(), kind, hex(g).c_str(), hex(e).c_str());
    H32 again = api::hash(v.data(), v.size()); REQUIRE(again == g, "hash of %zu bytes differs when computed again", v.size());
    last = g;
    c.label(v.size() < 129 ? "inputs of at most one block" : v.size() < 4096 ? "inputs of several blocks" : "inputs of 4 KB and more");
  }
  c.nontrivial = true;
}
// Several threads at once.
struct Job { uint64_t seed; unsigned n; char bad[256]; };
static void *job(void *p) {
  Job *j = (Job *)p;
  for (unsigned i = 0; i < j->n; i++) {
    size_t n = mix64(j->seed + i) % (i % 9 ? 700 : 40000); Bytes v(n, 0); Rng r(j->seed ^ i); if (n) r.fill(&v[0], n);
    H32 g; { InLib l; urkel_hash(g.data(), v.data(), n); }
    if (g != ref_hash(v)) { snprintf(j->bad, sizeof j->bad, "hash of %zu bytes, in parallel: %s", n, hex(g).c_str()); return nullptr; }
  }
  return nullptr;
}
static void threads_stage(Ctx &c) {
  free_threads = true;
  Job j[4]; pthread_t t[4]; memset(j, 0, sizeof j);
  uint64_t sd = c.s.seed();
  for (int i = 0; i < 4; i++) { j[i].seed = mix64(sd + i); j[i].n = 150; pthread_create(&t[i], nullptr, job, &j[i]); }
  for (int i = 0; i < 4; i++) pthread_join(t[i], nullptr);
  for (int i = 0; i < 4; i++) REQUIRE(!j[i].bad[0], "%s", j[i].bad);
  c.nontrivial = true; c.label("hashes computed in parallel", 600);
}
// Beyond 4 GiB: the byte counter has more than 32 bits.
static void huge_stage(Ctx &c) {
  // BLAKE2b-256 of this many zero bytes, from Python's hashlib
  static const struct { size_t n; const char *hex; } V[] = {
#include "huge_vectors.inc"
  };
  auto &v = V[c.idx % (sizeof V / sizeof V[0])];
  void *p = mmap(nullptr, v.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { c.label("no address space for a huge input"); return; }
  H32 g; { InLib l; urkel_hash(g.data(), p, v.n); }
  munmap(p, v.n);
  c.logf("hash of %zu zero bytes: %s", v.n, hex(g).c_str());
  REQUIRE(hex(g) == v.hex, "hash of %zu zero bytes: %s instead of %s", v.n, hex(g).c_str(), v.hex);
  c.nontrivial = true; c.label("huge inputs");
}
const Prop the_prop = {"C20", "every case hashes data of its own and compares with an independent BLAKE2b; lengths covers every length from 0 to 8191 at varying alignment",
  {{"lengths", lengths_stage, 1024, 8192, 8}, {"mix", mix_stage, 12000, 150000, 8}, {"threads", threads_stage, 100, 2000, 2}, {"huge", huge_stage, 3, 3, 3, 100}}};
