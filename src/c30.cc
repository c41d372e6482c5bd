// The work of a call follows the path or the change it concerns, not the number
// of records stored or of commits made before.
#include "world.hh"
#include "sched.hh"
#include "limits.hh"

namespace {
typedef std::vector<H32> Sorted;
unsigned lcp(const H32 &a, const H32 &b) { for (unsigned i = 0; i < 32; i++) if (a[i] != b[i]) return i * 8 + __builtin_clz((unsigned)(a[i] ^ b[i]) << 24); return 256; }
struct Cost { double nodes = 0, bits = 0; void operator+=(const Cost &o) { nodes += o.nodes; bits += o.bits; } };
// What the search for k meets in the tree of v[lo..hi).
Cost path(const Sorted &v, const H32 &k) {
  size_t lo = 0, hi = v.size(); Cost c; unsigned depth = 0;
  while (hi - lo > 1) {
    unsigned p = lcp(v[lo], v[hi - 1]); c.nodes++; c.bits = p;
    if (lcp(v[lo], k) < p) break;
    size_t mid = std::partition_point(v.begin() + lo, v.begin() + hi, [&](const H32 &x) { return !key_bit(x, p); }) - v.begin();
    if (key_bit(k, p)) lo = mid; else hi = mid;
    depth = p + 1;
  }
  (void)depth; c.nodes++; return c;
}
// Distinct nodes on the paths of several keys.
void paths(const Sorted &v, size_t lo, size_t hi, std::vector<H32>::const_iterator a, std::vector<H32>::const_iterator b, Cost &c) {
  if (a == b) return;
  c.nodes++;
  if (hi - lo <= 1) { c.nodes += b - a; return; }
  unsigned p = lcp(v[lo], v[hi - 1]);
  size_t mid = std::partition_point(v.begin() + lo, v.begin() + hi, [&](const H32 &x) { return !key_bit(x, p); }) - v.begin();
  for (auto i = a; i != b; ++i) if (lcp(v[lo], *i) < p) c.nodes++;
  auto m = std::stable_partition(const_cast<H32 *>(&*a), const_cast<H32 *>(&*a) + (b - a), [&](const H32 &x) { return !key_bit(x, p); });
  auto mi = a + (m - const_cast<H32 *>(&*a));
  paths(v, lo, mid, a, mi, c); paths(v, mid, hi, mi, b, c);
}
Cost paths(const Sorted &v, std::vector<H32> ks) { Cost c; if (v.size()) paths(v, 0, v.size(), ks.begin(), ks.end(), c); c.nodes += ks.size() + 1; return c; }

enum K { GET, HAS, ABSENT, PROVE, VERIFY, GET_AT, PROVE_AT, BEGIN, BEGIN_AT, UNKNOWN, INJECT, TX_INSERT, TX_UPDATE, TX_REMOVE, TX_GET, TX_ROOT, TX_PROVE, TX_CLEAR, TX_DROP, TX_REBASE, COMMIT, INSERT, REMOVE, ITER, ITER_ALL, ROOT, OPEN, NKIND };
const char *const kn[] = {"urkel_get", "urkel_has", "urkel_get of an absent key", "urkel_prove", "urkel_verify", "urkel_get at a committed root", "urkel_prove at a committed root", "urkel_tx_create", "urkel_tx_create at a committed root", "a lookup at an unknown root", "urkel_inject", "urkel_tx_insert", "urkel_tx_insert of a stored key", "urkel_tx_remove", "urkel_tx_get", "urkel_tx_root", "urkel_tx_prove", "urkel_tx_clear", "urkel_tx_destroy", "urkel_tx_inject", "urkel_tx_commit", "urkel_insert", "urkel_remove", "an iterator's first steps", "a whole iteration", "urkel_root", "urkel_open"};

uint64_t sys_n, sys_bytes;
void after(const Call &x, long ret) { sys_n++; if ((x.sc == S_READ || x.sc == S_PREAD || x.sc == S_WRITE || x.sc == S_PWRITE) && ret > 0) sys_bytes += ret; }

struct Meter {
  std::vector<double> v[2][NKIND]; int phase = 0;
  template <class F> void operator()(K k, const Cost &u, F f) {
    uint64_t w = lib_work, n = sys_n, b = sys_bytes; f();
    double cost = (double)(lib_work - w) + 30.0 * (sys_n - n) + (sys_bytes - b) / 4.0;
    v[phase][k].push_back(cost / (u.nodes + 4));
  }
};
double pick(std::vector<double> x, double q) { std::sort(x.begin(), x.end()); return x[(size_t)((x.size() - 1) * q)]; }

struct Db {
  Ctx &c; Src &s; std::string p; urkel_t *db = nullptr; Sorted v; uint64_t sd; uint64_t nk = 0; size_t vmax; unsigned shape;
  struct Old { H32 root; Sorted v; }; std::vector<Old> olds;
  Meter me; size_t commits = 0;
  Db(Ctx &c_) : c(c_), s(c_.s), p(c.dir + "/db") { sd = s.seed(); vmax = s.pickl({0, 8, 40, 200}); shape = s.below(3); }
  ~Db() { sys_after = nullptr; if (db) api::close(db); }
  H32 fresh() { for (;;) { uint64_t i = nk++; H32 x = rnd_key(sd + i); if (shape == 1 || (shape == 2 && i % 2)) { H32 pre = rnd_key(sd ^ 77); unsigned n = 1 + mix64(sd ^ 5) % 27; for (unsigned b = 0; b < n; b++) x[b] = pre[b]; } if (!std::binary_search(v.begin(), v.end(), x)) return x; } }
  const H32 &any(uint64_t r) { return v[mix64(sd ^ r) % v.size()]; }
  Bytes val(uint64_t r) { return mk_value(vmax ? mix64(r) % (vmax + 1) : 0, r % 1000003); }
  void skip(bool ok, const char *w) { if (!ok) throw Skip{w}; }
  static void add(Sorted &t, const H32 &k) { auto i = std::lower_bound(t.begin(), t.end(), k); if (i == t.end() || *i != k) t.insert(i, k); }
  static void del(Sorted &t, const H32 &k) { auto i = std::lower_bound(t.begin(), t.end(), k); if (i != t.end() && *i == k) t.erase(i); }
  void open() { int e; db = api::open(p, &e); skip(db, "open"); }
  void commit(size_t news, size_t updates, uint64_t r) {
    urkel_tx_t *t = api::tx_create(db); skip(t, "begin");
    Sorted n = v;
    for (size_t i = 0; i < news; i++) { H32 k = fresh(); skip(api::tx_insert(t, k, val(r + i)).ok, "insert"); if (news > 50) n.push_back(k); else add(n, k); }
    if (news > 50) std::sort(n.begin(), n.end());
    for (size_t i = 0; i < updates && v.size(); i++) skip(api::tx_insert(t, any(r * 131 + i), val(r + 7777 * i + 1)).ok, "insert");
    skip(api::tx_commit(t).ok, "commit"); api::tx_destroy(t); v = n; commits++;
  }
  void keep() { Old o{api::root(db), v}; if (olds.size() < 3) olds.push_back(o); else olds[mix64(sd + commits) % 3] = o; }
  void walk() { H32 u = rnd_key(sd ^ 0xdead); RV x = api::get(db, u, &u); skip(!x.ok, "unknown root"); } // the history, once
  typedef api::RV RV;
  void reopen(bool measured) {
    api::close(db); db = nullptr; int e;
    if (measured) me(OPEN, Cost{}, [&] { db = api::open(p, &e); }); else db = api::open(p, &e);
    skip(db, "reopen"); walk();
  }
  void round(uint64_t r) {
    Meter &m = me; Cost one;
    H32 k = any(r), ab = rnd_key(sd ^ (r * 0x10001 + 3)); if (r & 1) { ab = any(r + 5); ab[mix64(r) % 32] ^= 1 << r % 7; } if (std::binary_search(v.begin(), v.end(), ab)) ab[31] ^= 0x80;
    Cost pk = path(v, k), pa = path(v, ab);
    m(ROOT, one, [&] { api::root(db); });
    m(GET, pk, [&] { skip(api::get(db, k).ok, "get"); });
    m(HAS, pk, [&] { skip(api::has(db, k).ok, "has"); });
    m(ABSENT, pa, [&] { api::get(db, ab); });
    RV p; H32 rt = api::root(db);
    m(PROVE, pk, [&] { p = api::prove(db, k); }); skip(p.ok, "prove");
    m(VERIFY, pk, [&] { api::verify(p.v, k, rt); });
    m(PROVE, pa, [&] { p = api::prove(db, ab); });
    m(VERIFY, pa, [&] { api::verify(p.v, ab, rt); });
    H32 un = rnd_key(sd ^ (r + 0xbeef)); m(UNKNOWN, one, [&] { api::get(db, k, &un); });
    const Old *o = olds.size() ? &olds[mix64(r) % olds.size()] : nullptr;
    if (o && o->v.size()) {
      const H32 &ok = o->v[mix64(r + 1) % o->v.size()]; Cost po = path(o->v, ok);
      m(GET_AT, po, [&] { skip(api::get(db, ok, &o->root).ok, "get at a root"); });
      m(PROVE_AT, po, [&] { skip(api::prove(db, ok, &o->root).ok, "prove at a root"); });
      urkel_tx_t *t = nullptr; m(BEGIN_AT, one, [&] { t = api::tx_create(db, &o->root); }); skip(t, "begin at a root"); api::tx_destroy(t);
      if (r % 3 == 0) { m(INJECT, one, [&] { skip(api::inject(db, o->root).ok, "inject"); }); m(INJECT, one, [&] { skip(api::inject(db, rt).ok, "inject"); }); }
    }
    urkel_tx_t *t = nullptr; m(BEGIN, one, [&] { t = api::tx_create(db); }); skip(t, "begin");
    Sorted n = v; std::vector<H32> ch; size_t nc = 1 + mix64(r + 2) % 6; bool changed = false;
    auto changes = [&] {
      ch.clear();
      for (size_t i = 0; i < nc; i++) {
        uint64_t q = mix64(sd ^ (r * 64 + i));
        switch (q % 3) {
          case 0: { H32 x = fresh(); Cost u = path(n, x); m(TX_INSERT, u, [&] { skip(api::tx_insert(t, x, val(q)).ok, "insert"); }); add(n, x); ch.push_back(x); break; }
          case 1: { H32 x = n[(q >> 8) % n.size()]; Cost u = path(n, x); m(TX_UPDATE, u, [&] { skip(api::tx_insert(t, x, val(q)).ok, "insert"); }); ch.push_back(x); break; }
          default: if (n.size() > 10) { H32 x = n[(q >> 8) % n.size()]; Cost u = path(n, x); m(TX_REMOVE, u, [&] { skip(api::tx_remove(t, x).ok, "remove"); }); del(n, x); ch.push_back(x); }
        }
        changed = true;
      }
    };
    changes(); (void)changed;
    Cost un2 = paths(n, ch); un2 += paths(v, ch); un2.nodes /= 2;
    H32 in = n[mix64(r + 9) % n.size()]; m(TX_GET, path(n, in), [&] { skip(api::tx_get(t, in).ok, "get"); });
    unsigned how = mix64(sd + r * 5) % 6;
    if (how & 1) { m(TX_ROOT, un2, [&] { api::tx_root(t); }); Cost u = path(n, in); m(TX_PROVE, u, [&] { skip(api::tx_prove(t, in).ok, "prove"); }); }
    auto first = [&](urkel_iter_t *(*mk)(Db *, urkel_tx_t *), const Sorted &w) {
      Cost u = path(w, w[0]); for (size_t i = 0; i < 4 && i < w.size(); i++) u.nodes += 1; if (w.size() > 5) { Cost l = path(w, w[3]); u.nodes += l.nodes; }
      urkel_iter_t *it = nullptr; m(ITER, u, [&] { it = mk(this, t); for (int i = 0; it && i < 4; i++) if (!api::iter_next(it, i & 1).ok) break; if (it) api::iter_destroy(it); }); skip(it, "iterator"); };
    if (r % 2) first([](Db *, urkel_tx_t *t) { return api::iter_create(t); }, n); else first([](Db *d, urkel_tx_t *) { return api::iterate(d->db); }, v);
    if (how == 0) { m(TX_CLEAR, un2, [&] { api::tx_clear(t); }); n = v; changes(); un2 = paths(n, ch); un2 += paths(v, ch); un2.nodes /= 2; }
    if (how == 2) { m(TX_REBASE, un2, [&] { skip(api::tx_inject(t, rt).ok, "rebase"); }); n = v; changes(); un2 = paths(n, ch); un2 += paths(v, ch); un2.nodes /= 2; }
    if (how == 3) { m(TX_DROP, un2, [&] { api::tx_destroy(t); }); return; }
    m(COMMIT, un2, [&] { skip(api::tx_commit(t).ok, "commit"); }); v = n; commits++;
    api::tx_destroy(t);
    { H32 x = fresh(); Cost u = path(v, x); m(INSERT, u, [&] { skip(api::insert(db, x, val(r)).ok, "insert"); }); add(v, x); commits++; }
    if (v.size() > 10) { H32 x = any(r + 99); Cost u = path(v, x); m(REMOVE, u, [&] { skip(api::remove(db, x).ok, "remove"); }); del(v, x); commits++; }
    if (r % 4 == 0) keep();
  }
  void all() { Cost u; u.nodes = 2.0 * v.size(); urkel_iter_t *it = nullptr; size_t n = 0; me(ITER_ALL, u, [&] { it = api::iterate(db); while (it && api::iter_next(it).ok) n++; if (it) api::iter_destroy(it); }); skip(it && n == v.size(), "iterate"); }
  void measure(size_t rounds, uint64_t base) {
    for (size_t i = 0; i < rounds; i++) { round(base + i); if (i % 6 == 5) reopen(true); }
    all(); all();
  }
};

void compare(Ctx &c, Meter &me, const std::string &was, const std::string &is) {
  for (int k = 0; k < NKIND; k++) {
    auto &a = me.v[0][k], &b = me.v[1][k]; if (a.empty() || b.empty()) continue;
    // like calls meet nodes in memory and on disk in different shares: one yardstick for them
    static const std::vector<std::vector<int>> like = {{GET, HAS, ABSENT, GET_AT, TX_GET}, {PROVE, PROVE_AT, TX_PROVE}, {TX_INSERT, TX_UPDATE, TX_REMOVE}, {BEGIN_AT, UNKNOWN, INJECT}};
    double small = pick(a, 1); for (auto &l : like) if (std::count(l.begin(), l.end(), k)) for (int q : l) if (me.v[0][q].size()) small = std::max(small, pick(me.v[0][q], 1));
    double most = pick(b, 1), usual = pick(b, 0.75);
    if (const char *f = getenv("C30_PRINT")) { FILE *o = fopen(f, "a"); if (o) { fprintf(o, "Q %d %s %.1f %.1f %.3f %.3f\n", k, kn[k], small, usual, usual / (small + 1), most / (small + 1)); fclose(o); } }
    c.st.sub += b.size();
    // Opening reads the last part of a file, up to the size of a buffer.
    double extra = k == OPEN ? urkel_verif_read_buffer / 16.0 + 200 : 4;
    REQUIRE(usual <= 2.5 * small + extra, "%s: at most %.0f units of work per node of its path with %s, %.0f with %s", kn[k], small, was.c_str(), usual, is.c_str());
    // The table of known roots grows with them, in a commit now and then.
    if (k != COMMIT && k != INSERT && k != REMOVE) REQUIRE(most <= 5 * small + extra, "%s: at most %.0f units of work per node of its path with %s, once %.0f with %s", kn[k], small, was.c_str(), most, is.c_str());
  }
}

void buffered(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; Db d(c); sys_after = after; d.open();
    size_t n0 = s.range(20, 80), n1 = s.range(1000, c.thorough ? 9000 : 4000), stored = s.chance(1, 2) ? 0 : s.range(20, 2000);
    if (stored) { d.commit(stored, 0, 5); if (s.chance(1, 2)) d.reopen(false); }
    urkel_tx_t *t = api::tx_create(d.db); d.skip(t, "begin"); struct G { urkel_tx_t *t; ~G() { api::tx_destroy(t); } } g{t};
    Sorted n = d.v; bool root = s.chance(1, 2); unsigned rem = s.below(3); Meter &m = d.me;
    auto grow = [&](size_t k, uint64_t r) { for (size_t i = 0; i < k; i++) { H32 x = d.fresh(); d.skip(api::tx_insert(t, x, d.val(r + i)).ok, "insert"); n.push_back(x); } std::sort(n.begin(), n.end()); };
    auto measure = [&](uint64_t r0) {
      for (uint64_t r = r0; r < r0 + 14; r++) {
        H32 x = d.fresh(), y = n[mix64(d.sd + r) % n.size()]; if (root || r % 5 == 0) api::tx_root(t);
        Cost u = path(n, x), one; std::vector<H32> ch{x}; Sorted was = n;
        m(TX_INSERT, u, [&] { d.skip(api::tx_insert(t, x, d.val(r)).ok, "insert"); }); Db::add(n, x);
        u = path(n, y); m(TX_UPDATE, u, [&] { d.skip(api::tx_insert(t, y, d.val(r * 3)).ok, "update"); }); ch.push_back(y);
        if (n.size() > 10 && r % 3 <= rem) { H32 z = n[mix64(d.sd + r * 7) % n.size()]; u = path(n, z); m(TX_REMOVE, u, [&] { d.skip(api::tx_remove(t, z).ok, "remove"); }); Db::del(n, z); ch.push_back(z); }
        H32 q = n[mix64(d.sd + r * 11) % n.size()]; u = path(n, q); m(TX_GET, u, [&] { d.skip(api::tx_get(t, q).ok, "get"); }); m(TX_GET, u, [&] { d.skip(api::tx_has(t, q).ok, "has"); });
        H32 ab = q; ab[mix64(r) % 32] ^= 4; if (!std::binary_search(n.begin(), n.end(), ab)) m(TX_GET, path(n, ab), [&] { api::tx_has(t, ab); });
        if (root || r % 5 == 0) {
          u = paths(n, ch); u += paths(was, ch); u.nodes /= 2; m(TX_ROOT, u, [&] { api::tx_root(t); }); m(ROOT, one, [&] { api::tx_root(t); });
          u = path(n, q); m(TX_PROVE, u, [&] { d.skip(api::tx_prove(t, q).ok, "prove"); }); }
        u = path(n, n[0]); u.nodes += 4; if (n.size() > 5) u.nodes += path(n, n[3]).nodes; urkel_iter_t *it = nullptr;
        m(ITER, u, [&] { it = api::iter_create(t); for (int i = 0; it && i < 4; i++) if (!api::iter_next(it, i & 1).ok) break; if (it) api::iter_destroy(it); }); d.skip(it, "iterator");
      }
    };
    if (n.size() < n0) grow(n0 - n.size(), 1);
    size_t b0 = n.size(); c.logf("%zu records stored, %zu in the transaction, later %zu more; values of up to %zu bytes, keys of shape %u%s", d.v.size(), b0, n1, d.vmax, d.shape, root ? ", root asked for" : "");
    measure(1000); grow(n1, 50000); d.me.phase = 1; measure(900000);
    compare(c, d.me, sfmt("%zu records in the transaction", b0), sfmt("%zu", n.size()));
    c.nontrivial = true; c.label(stored ? "buffered on top of stored records" : "buffered");
  });
}

void growth(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; Limits lim; if (s.chance(1, 3)) { urkel_verif_max_file_size = s.range(300000, 2000000); c.logf("files of %zu bytes", urkel_verif_max_file_size); }
    if (s.chance(3, 4)) { urkel_verif_read_buffer = s.pickl({1900, 4096, 65536}); c.logf("read buffer %zu", urkel_verif_read_buffer); }
    if (!limits_hooked()) urkel_verif_read_buffer = 1 << 20;
    Db d(c); sys_after = after;
    d.open();
    size_t n0 = s.range(20, 80), n1 = s.chance(1, 4) ? 0 : s.range(1500, c.thorough ? 9000 : 4000), c1 = n1 && s.chance(1, 3) ? 1 : s.range(60, 250);
    d.commit(n0, 0, 1); d.walk(); d.keep();
    c.logf("%zu records; later %zu more in %zu commits; values of up to %zu bytes, keys of shape %u", n0, n1, c1, d.vmax, d.shape);
    d.measure(12, 100); size_t r0 = d.v.size(), k0 = d.commits;
    for (size_t i = 0; i < c1; i++) { d.commit(n1 ? n1 / c1 + 1 : 0, c1 == 1 ? 0 : 1 + i % 5, 100000 + i * 1000); if (i % (c1 / 4 + 1) == 0) d.keep(); }
    if (s.chance(1, 2)) d.reopen(false);
    d.me.phase = 1;
    d.measure(12, 9000000);
    compare(c, d.me, sfmt("%zu records and %zu commits", r0, k0), sfmt("%zu records and %zu commits", d.v.size(), d.commits));
    c.nontrivial = d.commits >= k0 + 20 || d.v.size() >= r0 + 1000; c.label(n1 ? c1 == 1 ? "grown by records in one commit" : "grown by both" : "grown by commits");
  });
}
} // namespace
extern const Prop the_prop = {"C30", "measured before and after at least 20 commits or 1000 records more; a transaction with over 1000 changes", {{"growth", growth, 500, 12000, 8}, {"buffered", buffered, 300, 8000, 8}}};
