// The library's calls, with the harness's bookkeeping around them: every
// buffer is exactly as large as documented and on the heap (so a sanitizer
// sees the first byte beyond it), and the error code is preset to a value
// that no call may leave behind on failure.
#pragma once
#include "ref.hh"
#include "wrap.hh"
#include "engine.hh"
#include <stdlib.h>
extern "C" {
#include <urkel.h>
}

static const int ERR_UNSET = 0x5a5a;
inline const char *err_name(int e) {
  static const char *const n[] = {"ok", "EHASHMISMATCH", "ESAMEKEY", "ESAMEPATH", "ENEGDEPTH", "EPATHMISMATCH", "ETOODEEP", "EINVAL", "ENOTFOUND", "ECORRUPTION", "ENOUPDATE", "EBADWRITE", "EBADOPEN", "EITEREND"};
  return e >= 0 && e <= 13 ? n[e] : e == ERR_UNSET ? "(none set)" : "(unknown code)";
}

// A heap copy of exactly n bytes. With buf_page set, inputs are in pages that
// cannot be written, outputs between bytes that must stay, at odd addresses.
struct Page { uint8_t *p, *end; bool in; size_t n; };
Page *page_get(const void *d, size_t n); // d null: an output
void page_put(Page *);
extern bool buf_page;
extern char buf_error[256];
struct Buf {
  uint8_t *p; size_t n; Page *pg = nullptr;
  Buf(const void *d, size_t len) : n(len) { if (buf_page && (pg = page_get(d ? d : "", len))) { p = pg->p; return; } p = (uint8_t *)malloc(len ? len : 1); if (len) memcpy(p, d, len); }
  explicit Buf(const H32 &h) : Buf(h.data(), 32) {}
  explicit Buf(const Bytes &b) : Buf(b.data(), b.size()) {}
  explicit Buf(size_t len) : n(len) { if (buf_page && (pg = page_get(nullptr, len))) { p = pg->p; return; } p = (uint8_t *)malloc(len ? len : 1); memset(p, 0xee, len); }
  ~Buf() { if (pg) page_put(pg); else free(p); }
  Buf(const Buf &) = delete;
  void operator=(const Buf &) = delete;
  H32 h() const { H32 x; memcpy(x.data(), p, 32); return x; }
  Bytes s(size_t k) const { if (pg) for (size_t i = k; i < n; i++) if (p[i] != 0xee && !buf_error[0]) snprintf(buf_error, sizeof buf_error, "a call writes at %zu of a buffer, beyond the %zu bytes of its answer", i, k); return Bytes((char *)p, k); }
};

namespace api {
struct R { int ok; int err; explicit operator bool() const { return ok; } };
struct RV { int ok; int err; Bytes v; explicit operator bool() const { return ok; } };

#define LIBCALL(expr) ([&] { InLib _l; urkel_errno = ERR_UNSET; auto _r = (expr); return _r; }())
#define LIBVOID(expr) do { InLib _l; urkel_errno = ERR_UNSET; expr; } while (0)

inline urkel_t *open(const std::string &p, int *err = nullptr) { Buf b(p.c_str(), p.size() + 1); urkel_t *t = LIBCALL(urkel_open((char *)b.p)); if (err) *err = t ? 0 : urkel_errno; return t; }
inline void close(urkel_t *t) { LIBVOID(urkel_close(t)); }
inline R destroy(const std::string &p) { Buf b(p.c_str(), p.size() + 1); int r = LIBCALL(urkel_destroy((char *)b.p)); return {r, urkel_errno}; }
inline R corrupt(const std::string &p) { Buf b(p.c_str(), p.size() + 1); int r = LIBCALL(urkel__corrupt((char *)b.p)); return {r, urkel_errno}; }
inline H32 hash(const void *d, size_t n) { Buf b(d, n), o(32); LIBVOID(urkel_hash(o.p, b.p, n)); return o.h(); }
inline H32 root(urkel_t *t) { Buf o(32); LIBVOID(urkel_root(t, o.p)); return o.h(); }
inline R inject(urkel_t *t, const H32 &h) { Buf k(h); int r = LIBCALL(urkel_inject(t, k.p)); return {r, urkel_errno}; }

inline void clear_get(RV &r, size_t n, const char *what) {
  if (!r.ok) REQUIRE(n == 0, "%s failed but left a size of %zu", what, n);
}
inline RV get(urkel_t *t, const H32 &key, const H32 *root = nullptr) {
  Buf k(key), o((size_t)VALUE_MAX), h(root ? *root : H32{}); size_t n = 12345;
  RV r; r.ok = LIBCALL(urkel_get(t, o.p, &n, k.p, root ? h.p : nullptr)); r.err = urkel_errno;
  clear_get(r, n, "urkel_get");
  if (r.ok) { REQUIRE(n <= VALUE_MAX, "urkel_get: size %zu", n); r.v = o.s(n); }
  return r;
}
inline R has(urkel_t *t, const H32 &key, const H32 *root = nullptr) {
  Buf k(key), h(root ? *root : H32{}); int r = LIBCALL(urkel_has(t, k.p, root ? h.p : nullptr)); return {r, urkel_errno};
}
inline R insert(urkel_t *t, const H32 &key, const Bytes &v) { Buf k(key), b(v); int r = LIBCALL(urkel_insert(t, k.p, b.p, v.size())); return {r, urkel_errno}; }
inline R remove(urkel_t *t, const H32 &key) { Buf k(key); int r = LIBCALL(urkel_remove(t, k.p)); return {r, urkel_errno}; }
inline RV take_proof(int ok, unsigned char *raw, size_t n, const char *what) {
  RV r; r.ok = ok; r.err = urkel_errno;
  if (ok) { REQUIRE(raw != nullptr && n > 0, "%s succeeded without a proof", what); r.v.assign((char *)raw, n); LIBVOID(urkel_free(raw)); }
  else REQUIRE(raw == nullptr && n == 0, "%s failed but left a proof of %zu bytes", what, n);
  return r;
}
inline RV prove(urkel_t *t, const H32 &key, const H32 *root = nullptr) {
  Buf k(key), h(root ? *root : H32{}); unsigned char *raw = (unsigned char *)1; size_t n = 12345;
  int ok = LIBCALL(urkel_prove(t, &raw, &n, k.p, root ? h.p : nullptr));
  return take_proof(ok, raw, n, "urkel_prove");
}
struct V { int ok, err, exists; Bytes v; };
inline V verify(const Bytes &proof, const H32 &key, const H32 &root) {
  Buf p(proof), k(key), h(root), o((size_t)VALUE_MAX); int ex = 77; size_t n = 12345;
  V r; r.ok = LIBCALL(urkel_verify(&ex, o.p, &n, p.p, proof.size(), k.p, h.p)); r.err = urkel_errno; r.exists = ex;
  REQUIRE(r.ok == 0 || r.ok == 1, "urkel_verify returned %d", r.ok);
  REQUIRE(ex == 0 || ex == 1, "urkel_verify: exists is %d", ex);
  if (!r.ok || !ex) REQUIRE(ex == 0 && n == 0, "urkel_verify: exists %d and length %zu for ok %d", ex, n, r.ok);
  REQUIRE(n <= VALUE_MAX, "urkel_verify: length %zu", n);
  r.v = o.s(n);
  return r;
}
inline urkel_iter_t *iterate(urkel_t *t, const H32 *root = nullptr, int *err = nullptr) { Buf h(root ? *root : H32{}); urkel_iter_t *i = LIBCALL(urkel_iterate(t, root ? h.p : nullptr)); if (err) *err = i ? 0 : urkel_errno; return i; }

inline urkel_tx_t *tx_create(urkel_t *t, const H32 *root = nullptr, int *err = nullptr) { Buf h(root ? *root : H32{}); urkel_tx_t *x = LIBCALL(urkel_tx_create(t, root ? h.p : nullptr)); if (err) *err = x ? 0 : urkel_errno; return x; }
inline void tx_destroy(urkel_tx_t *x) { LIBVOID(urkel_tx_destroy(x)); }
inline void tx_clear(urkel_tx_t *x) { LIBVOID(urkel_tx_clear(x)); }
inline H32 tx_root(urkel_tx_t *x) { Buf o(32); LIBVOID(urkel_tx_root(x, o.p)); return o.h(); }
inline R tx_inject(urkel_tx_t *x, const H32 &h) { Buf k(h); int r = LIBCALL(urkel_tx_inject(x, k.p)); return {r, urkel_errno}; }
inline RV tx_get(urkel_tx_t *x, const H32 &key) {
  Buf k(key), o((size_t)VALUE_MAX); size_t n = 12345;
  RV r; r.ok = LIBCALL(urkel_tx_get(x, o.p, &n, k.p)); r.err = urkel_errno;
  clear_get(r, n, "urkel_tx_get");
  if (r.ok) { REQUIRE(n <= VALUE_MAX, "urkel_tx_get: size %zu", n); r.v = o.s(n); }
  return r;
}
inline R tx_has(urkel_tx_t *x, const H32 &key) { Buf k(key); int r = LIBCALL(urkel_tx_has(x, k.p)); return {r, urkel_errno}; }
inline R tx_insert(urkel_tx_t *x, const H32 &key, const Bytes &v) { Buf k(key), b(v); int r = LIBCALL(urkel_tx_insert(x, k.p, b.p, v.size())); return {r, urkel_errno}; }
inline R tx_remove(urkel_tx_t *x, const H32 &key) { Buf k(key); int r = LIBCALL(urkel_tx_remove(x, k.p)); return {r, urkel_errno}; }
inline RV tx_prove(urkel_tx_t *x, const H32 &key) {
  Buf k(key); unsigned char *raw = (unsigned char *)1; size_t n = 12345;
  int ok = LIBCALL(urkel_tx_prove(x, &raw, &n, k.p));
  return take_proof(ok, raw, n, "urkel_tx_prove");
}
inline R tx_commit(urkel_tx_t *x) { int r = LIBCALL(urkel_tx_commit(x)); return {r, urkel_errno}; }

inline urkel_iter_t *iter_create(urkel_tx_t *x) { return LIBCALL(urkel_iter_create(x)); }
inline void iter_destroy(urkel_iter_t *i) { LIBVOID(urkel_iter_destroy(i)); }
struct It { int ok, err; H32 key; Bytes v; };
inline It iter_next(urkel_iter_t *i, bool keys_only = false) {
  Buf k((size_t)32), o((size_t)VALUE_MAX); size_t n = 0;
  It r; r.ok = LIBCALL(urkel_iter_next(i, k.p, keys_only ? nullptr : o.p, keys_only ? nullptr : &n)); r.err = urkel_errno;
  if (r.ok) { REQUIRE(n <= VALUE_MAX, "urkel_iter_next: size %zu", n); r.key = k.h(); r.v = o.s(n); }
  return r;
}
} // namespace api
