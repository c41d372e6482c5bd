#include "life.hh"
#include "format.hh"
#include <sys/resource.h>

namespace {
// What cannot be read.
enum Mode { M_POLICY, M_GONE, M_CUT, M_ONCE, M_HANDLES, M_N };
struct { bool on; Mode mode; std::set<std::string> u; int err; int kinds; uint64_t k, n, fired, all; char what[64]; } F;
bool reading(const Call &c) { return c.sc == S_PREAD || c.sc == S_READ || c.sc == S_MMAP || c.sc == S_FSTAT || (c.sc == S_OPEN && !(c.flags & O_CREAT)); }
Action policy(const Call &c) {
  if (!F.on) return {Action::PASS, 0, 0};
  bool data = c.file && is_data_name(c.file); if (!data) return {Action::PASS, 0, 0};
  if (F.mode == M_POLICY) {
    if (!F.u.count(c.file) || !reading(c)) return {Action::PASS, 0, 0};
    bool o = c.sc == S_OPEN, m = c.sc == S_MMAP, f = c.sc == S_FSTAT;
    if (F.kinds == 1 && !o) return {Action::PASS, 0, 0};
    if (F.kinds == 2 && (o || f)) return {Action::PASS, 0, 0};  // opens, but neither maps nor reads
    if (F.kinds == 3 && !f && !m) return {Action::PASS, 0, 0};
  } else if (F.mode == M_ONCE) { if (!reading(c) || F.n++ != F.k) return {Action::PASS, 0, 0}; }
  else if (F.mode == M_HANDLES) { if (c.sc != S_OPEN) return {Action::PASS, 0, 0}; }
  else return {Action::PASS, 0, 0};
  F.fired++; F.all++; snprintf(F.what, sizeof F.what, "%s %s", sc_name[c.sc], c.file);
  return {Action::ERR, F.err, 0};
}

struct Bench {
  Ctx &c; Src &s; World w; std::set<uint32_t> U; Files kept; std::map<H32, std::vector<fmt::Ptr>> at; std::unique_ptr<fmt::Reader> rd; std::set<uint32_t> search;
  std::map<urkel_tx_t *, H32> from; // the root a view's untouched parts are of
  uint64_t errors = 0, hits = 0, must = 0, wrote = 0;
  explicit Bench(Ctx &c_) : c(c_), s(c_.s), w(c_, A_ALL) {}
  void scan() { // what is where; the data as they were before
    Files f = db_files(w.path); for (auto &x : kept) f[x.first] = x.second;
    try {
      rd.reset(new fmt::Reader(f)); at.clear(); search.clear();
      for (auto &x : rd->seals) {
        search.insert(x.index); if (!x.root.index) { at[H32{}]; continue; }
        auto n = rd->node(x.root, nullptr); search.insert(x.root.index); if (n.type == 2) search.insert(n.value.index);
        H32 h = n.type == 2 ? ref_leaf(n.key, rd->value(n, nullptr)) : ref_internal(n.prefix, n.h[0], n.h[1]);
        at[h].push_back(x.root);
      }
    } catch (fmt::Bad &b) { throw Skip{"the files: " + b.why}; }
  }
  bool clear_of(const std::set<uint32_t> &f) { for (auto x : f) if (U.count(x)) return false; return true; }
  // Must it succeed? Whether nothing unreadable is needed.
  enum What { GET, HAS, INSERT, REMOVE, PROVE };
  bool needs_none(What what, const H32 &root, bool dirty, const H32 &k) {
    if (F.mode == M_ONCE) return false;     // judged by whether it fired
    if (F.mode == M_HANDLES) return root == H32{};
    if (root == H32{}) return true;
    auto it = at.find(root); if (it == at.end()) return false;
    if (dirty && what == PROVE) return false;
    for (auto &p : it->second) {
      auto n = rd->need(p, k); 
      if (!clear_of(n.path)) return false;
      if (what == GET || what == INSERT || what == PROVE) if (!clear_of(n.value)) return false;
      if (what == REMOVE) { if (!clear_of(n.sibling)) return false; if (dirty) { std::set<uint32_t> a; rd->all(p, a); if (!clear_of(a)) return false; } }
      if (what == PROVE && !clear_of(n.other)) return false;
    }
    return true;
  }
  bool iter_needs_none(const H32 &root) { if (F.mode == M_ONCE) return false; if (root == H32{}) return true; if (F.mode == M_HANDLES) return false; auto it = at.find(root); if (it == at.end()) return false; for (auto &p : it->second) { std::set<uint32_t> a; rd->all(p, a); if (!clear_of(a)) return false; } return true; }

  void pick() {
    Span sp(s); uint32_t newest = rd->seals.empty() ? 0 : rd->seals[0].index; U.clear(); F.u.clear();
    F.mode = (Mode)s.below(M_N); F.err = s.pickl({EMFILE, EIO, EACCES, ENFILE, ENOENT, ENOMEM}); F.kinds = s.below(4);
    if (newest >= 2) switch (s.below(3)) {
      case 0: for (uint32_t i = 1; i < newest; i++) U.insert(i); break;
      case 1: U.insert(1 + s.below(newest - 1)); break;
      default: { unsigned d = 2 + s.below(3); for (uint32_t i = 1; i < newest; i++) if (s.chance(1, d)) U.insert(i); } }
    if (F.mode == M_POLICY && F.kinds == 2 && newest && s.chance(1, 4)) U.insert(newest);
    if (U.empty()) { F.mode = s.chance(1, 2) ? M_ONCE : M_HANDLES; }
    for (auto i : U) F.u.insert(data_name(i));
  }
  static const char *mode_name() { static const char *const n[] = {"errors reading", "files gone", "files cut short", "one failing call", "no file handles"}; return n[F.mode]; }
  void damage() { // before the database is opened for M_CUT, while it is open otherwise
    kept.clear();
    for (auto &n : F.u) { Bytes d; read_file(w.path + "/" + n, d); kept[n] = d;
      if (F.mode == M_GONE) unlink((w.path + "/" + n).c_str());
      if (F.mode == M_CUT) { size_t k = s.chance(1, 3) ? 0 : s.below(d.size() + 1); truncate((w.path + "/" + n).c_str(), k); c.logf("  %s cut to %zu of %zu bytes", n.c_str(), k, d.size()); } }
    if (F.mode != M_GONE && F.mode != M_CUT) kept.clear();
  }
  void restore() { for (auto &x : kept) write_file(w.path + "/" + x.first, x.second); kept.clear(); }

  bool fired0 = false;
  void before() { F.n = F.fired = 0; F.k = s.below(4); F.what[0] = 0; F.on = true; }
  // Returns true if the call may have failed for want of data.
  void judge(const char *what, bool ok, int err, bool none_needed, const Map &m, const H32 &k, bool wr = false, bool write_fails = false) {
    F.on = false;
    if (ok) return;
    errors++;
    if (write_fails && F.fired && err == URKEL_EBADWRITE) return;
    if (F.mode == M_ONCE) none_needed = !F.fired;
    if (none_needed) fail("%s(%s) fails with %s, though all data for it can be read (%s)", what, kx(k).c_str(), err_name(err), mode_name());
    REQUIRE(err == URKEL_ECORRUPTION, "%s(%s), with data that cannot be read (%s %s), reports %s (the key is %s)", what, kx(k).c_str(), mode_name(), F.what, err_name(err), m.count(k) ? "present" : "absent");
    (void)wr;
  }
  // absent keys answer with ENOTFOUND, which is right
  bool right_absent(const Map &m, const H32 &k, bool ok, int err) { return !ok && err == URKEL_ENOTFOUND && !m.count(k); }

  H32 base_of(TxM &t) { if (!t.dirty) { H32 r = ref_root(t.m); from[t.tx] = r; return r; } auto it = from.find(t.tx); H32 none; none.fill(0xfe); return it == from.end() ? none : it->second; }

  void op_view(TxM &t) {
    H32 R = base_of(t); H32 k = w.any_key(t.m); bool dirty = t.dirty;
    switch (s.below(8)) {
      case 0: case 1: {
        bool nn = needs_none(GET, R, dirty, k); before(); api::RV r = api::tx_get(t.tx, k); if (nn) must++; c.logf("  get %s%s: %s", kx(k).c_str(), nn ? " (can)" : "", r.ok ? "ok" : err_name(r.err));
        if (right_absent(t.m, k, r.ok, r.err)) { F.on = false; return; }
        judge("get", r.ok, r.err, nn, t.m, k); if (r.ok) w.chk_get(A_ALL, "get with unreadable data", r, t.m, k); return; }
      case 2: {
        bool nn = needs_none(HAS, R, dirty, k); before(); api::R r = api::tx_has(t.tx, k); if (nn) must++; c.logf("  has %s%s: %s", kx(k).c_str(), nn ? " (can)" : "", r.ok ? "ok" : err_name(r.err));
        if (right_absent(t.m, k, r.ok, r.err)) { F.on = false; return; }
        judge("has", r.ok, r.err, nn, t.m, k); if (r.ok) w.chk_has(A_ALL, "has with unreadable data", r, t.m, k); return; }
      case 3: {
        bool nn = needs_none(PROVE, R, dirty, k); before(); api::RV r = api::tx_prove(t.tx, k); if (nn) must++; c.logf("  prove %s%s: %s", kx(k).c_str(), nn ? " (can)" : "", r.ok ? "ok" : err_name(r.err));
        judge("prove", r.ok, r.err, nn, t.m, k); if (r.ok) w.chk_proof(A_ALL, "prove with unreadable data", r, t.m, k, ref_root(t.m)); return; }
      case 4: {
        Bytes v = gen_value(s); if (t.m.count(k) && s.chance(1, 5)) v = t.m[k];
        bool nn = needs_none(INSERT, R, dirty, k); before(); api::R r = api::tx_insert(t.tx, k, v); if (nn) must++; c.logf("  insert %s (%zu bytes)%s: %s", kx(k).c_str(), v.size(), nn ? " (can)" : "", r.ok ? "ok" : err_name(r.err));
        judge("insert", r.ok, r.err, nn, t.m, k, true); if (r.ok) { t.m[k] = v; t.dirty = true; wrote++; } else check_later(t); return; }
      case 5: case 6: {
        if (s.chance(2, 3)) k = w.some_key(t.m, true);
        bool nn = needs_none(REMOVE, R, dirty, k); before(); api::R r = api::tx_remove(t.tx, k); if (nn) must++; c.logf("  remove %s%s: %s", kx(k).c_str(), nn ? " (can)" : "", r.ok ? "ok" : err_name(r.err));
        if (right_absent(t.m, k, r.ok, r.err)) { F.on = false; return; }
        judge("remove", r.ok, r.err, nn, t.m, k, true); if (r.ok) { REQUIRE(t.m.count(k), "remove of an absent key succeeds"); t.m.erase(k); t.dirty = true; wrote++; } else check_later(t); return; }
      default: iterate(t, R); return;
    }
  }
  // A failed change: the view is as before. Looking needs the data.
  void check_later(TxM &t) {
    if (F.mode == M_CUT || !s.chance(1, 3)) return;
    bool gone = F.mode == M_GONE; Files k = kept; if (gone) restore();
    F.on = false; w.full_tx(A_ALL, "the view after a change that failed for unreadable data", t.tx, t.m);
    if (gone) { for (auto &x : k) unlink((w.path + "/" + x.first).c_str()); kept = k; }
  }
  void iterate(TxM &t, const H32 &R) {
    bool ko = s.chance(1, 4), nn = iter_needs_none(R); urkel_iter_t *it = api::iter_create(t.tx); REQUIRE(it, "no iterator"); struct G { urkel_iter_t *i; ~G() { api::iter_destroy(i); } } g{it};
    if (nn) must++;
    bool err = false; auto e = t.m.begin(); size_t seen = 0; H32 last{}; bool any = false;
    before(); uint64_t f0 = 0; size_t errs = 0;
    for (;;) {
      F.on = true; api::It r = api::iter_next(it, ko); F.on = false;
      if (r.ok) {
        auto m = t.m.find(r.key); REQUIRE(m != t.m.end(), "iteration with unreadable data: a key that is not there, %s", kx(r.key).c_str());
        if (!ko) REQUIRE(r.v == m->second, "iteration with unreadable data: a wrong value of %zu bytes for %s", r.v.size(), kx(r.key).c_str());
        REQUIRE(!any || last < r.key, "iteration with unreadable data goes back"); any = true; last = r.key; seen++;
        if (!err) { REQUIRE(e != t.m.end() && e->first == r.key, "iteration with unreadable data skips %s without an error", e == t.m.end() ? "?" : kx(e->first).c_str()); ++e; }
        continue;
      }
      if (r.err == URKEL_EITEREND) { REQUIRE(err || e == t.m.end(), "iteration with unreadable data (%s %s) ends after %zu of %zu records without an error", mode_name(), F.what, seen, t.m.size()); break; }
      judge("iterate", false, r.err, nn, t.m, e == t.m.end() ? H32{} : e->first);
      err = true; (void)f0; if (++errs > 2 || s.chance(1, 2)) break;
    }
    c.logf("  iterate%s: %zu of %zu%s", nn ? " (can)" : "", seen, t.m.size(), err ? ", with an error" : "");
  }
  void op_db() {
    H32 k = w.any_key(w.base), R = ref_root(w.base);
    switch (s.below(9)) {
      case 0: { bool nn = needs_none(GET, R, false, k); before(); api::RV r = api::get(w.db, k); c.logf("db get %s: %s", kx(k).c_str(), r.ok ? "ok" : err_name(r.err)); if (right_absent(w.base, k, r.ok, r.err)) break; judge("one-shot get", r.ok, r.err, nn, w.base, k); if (r.ok) w.chk_get(A_ALL, "one-shot get with unreadable data", r, w.base, k); break; }
      case 1: { bool nn = needs_none(HAS, R, false, k); before(); api::R r = api::has(w.db, k); c.logf("db has %s: %s", kx(k).c_str(), r.ok ? "ok" : err_name(r.err)); if (right_absent(w.base, k, r.ok, r.err)) break; judge("one-shot has", r.ok, r.err, nn, w.base, k); if (r.ok) w.chk_has(A_ALL, "one-shot has with unreadable data", r, w.base, k); break; }
      case 2: { bool nn = needs_none(PROVE, R, false, k); before(); api::RV r = api::prove(w.db, k); c.logf("db prove %s: %s", kx(k).c_str(), r.ok ? "ok" : err_name(r.err)); judge("one-shot prove", r.ok, r.err, nn, w.base, k); if (r.ok) w.chk_proof(A_ALL, "one-shot prove with unreadable data", r, w.base, k, R); break; }
      case 3: { Bytes v = gen_value(s); bool nn = needs_none(INSERT, R, false, k); before(); api::R r = api::insert(w.db, k, v); c.logf("db insert %s: %s", kx(k).c_str(), r.ok ? "ok" : err_name(r.err)); judge("one-shot insert", r.ok, r.err, nn, w.base, k, true, F.mode == M_HANDLES || F.mode == M_ONCE); if (r.ok) { Map m = w.base; m[k] = v; w.did_commit(m); scan(); wrote++; } same_root("one-shot insert"); break; }
      case 4: { bool nn = needs_none(REMOVE, R, false, k); before(); api::R r = api::remove(w.db, k); c.logf("db remove %s: %s", kx(k).c_str(), r.ok ? "ok" : err_name(r.err)); if (right_absent(w.base, k, r.ok, r.err)) break; judge("one-shot remove", r.ok, r.err, nn, w.base, k, true, F.mode == M_HANDLES || F.mode == M_ONCE); if (r.ok) { REQUIRE(w.base.count(k), "one-shot remove of an absent key succeeds"); Map m = w.base; m.erase(k); w.did_commit(m); scan(); wrote++; } same_root("one-shot remove"); break; }
      case 5: { if (w.txs.size() >= 5) break; before(); urkel_tx_t *t = api::tx_create(w.db); F.on = false; REQUIRE(t, "a transaction at the database's root is refused: %s", err_name(urkel_errno)); w.txs.push_back({t, w.base, false}); from[t] = R; c.logf("tx%zu = begin", w.txs.size() - 1); break; }
      case 6: { if (w.txs.size() >= 5) break; H32 r = w.some_root(); bool nn = F.mode == M_HANDLES ? false : F.mode != M_ONCE && clear_of(search); int e; before(); urkel_tx_t *t = api::tx_create(w.db, &r, &e); F.on = false; if (F.mode == M_ONCE) nn = !F.fired; c.logf("begin at %s: %s", shx(r).c_str(), t ? "ok" : err_name(e));
        if (!t) { errors++; REQUIRE(!nn, "the committed root %s is refused, though all data for it can be read: %s", shx(r).c_str(), err_name(e)); break; }
        w.txs.push_back({t, w.hist[r], false}); from[t] = r; break; }
      case 7: { if (w.txs.empty()) break; size_t i = s.below(w.txs.size()); H32 r = w.some_root(); bool nn = F.mode != M_HANDLES && F.mode != M_ONCE && clear_of(search); before(); api::R x = api::tx_inject(w.txs[i].tx, r); F.on = false; if (F.mode == M_ONCE) nn = !F.fired; c.logf("tx%zu inject %s: %s", i, shx(r).c_str(), x.ok ? "ok" : err_name(x.err));
        if (x.ok) { w.txs[i].m = w.hist[r]; w.txs[i].dirty = false; from[w.txs[i].tx] = r; } else { errors++; REQUIRE(!nn, "re-basing on a committed root fails though all data for it can be read: %s", err_name(x.err)); check_later(w.txs[i]); } break; }
      default: { H32 r = w.some_root(); bool nn = F.mode != M_HANDLES && F.mode != M_ONCE && clear_of(search); before(); api::R x = api::inject(w.db, r); F.on = false; if (F.mode == M_ONCE) nn = !F.fired; c.logf("db inject %s: %s", shx(r).c_str(), x.ok ? "ok" : err_name(x.err));
        if (x.ok) w.base = w.hist[r]; else { errors++; REQUIRE(!nn, "reverting to a committed root fails though all data for it can be read: %s", err_name(x.err)); } same_root("revert"); break; }
    }
    F.on = false;
  }
  void same_root(const char *what) { F.on = false; H32 g = api::root(w.db), e = ref_root(w.base); REQUIRE(g == e, "after a %s with unreadable data the database's root is %s instead of %s", what, shx(g).c_str(), shx(e).c_str()); }
  void commit(size_t i) {
    TxM &t = w.txs[i]; H32 r = ref_root(t.m); { H32 g = (before(), api::tx_root(t.tx)); F.on = false; REQUIRE(g == r, "with unreadable data (%s) a transaction has the root %s instead of %s", mode_name(), shx(g).c_str(), shx(r).c_str()); }
    bool wf = F.mode == M_HANDLES || F.mode == M_ONCE;
    before(); api::R x = api::tx_commit(t.tx); F.on = false; c.logf("tx%zu commit (%zu records): %s", i, t.m.size(), x.ok ? "ok" : err_name(x.err));
    if (!x.ok) { errors++; REQUIRE(wf && F.fired, "commit fails with %s, though it needs none of the unreadable data (%s)", err_name(x.err), mode_name()); REQUIRE(x.err == URKEL_EBADWRITE, "commit that cannot open its file reports %s", err_name(x.err)); same_root("failed commit");
      H32 g = api::tx_root(t.tx); if (g == ref_root(w.base)) { t.m = w.base; t.dirty = false; } else REQUIRE(g == r, "a failed commit leaves its transaction at an unknown root"); return; }
    t.dirty = false; w.did_commit(t.m); from[t.tx] = r; scan(); same_root("commit"); wrote++;
  }
  void ops(size_t n) {
    for (size_t i = 0; i < n; i++) {
      Span sp(s); uint64_t f0 = F.all;
      if (w.txs.empty() || s.chance(1, 4)) op_db();
      else if (s.chance(1, 12)) commit(s.below(w.txs.size()));
      else if (s.chance(1, 14)) { size_t j = s.below(w.txs.size()); c.logf("tx%zu clear", j); before(); api::tx_clear(w.txs[j].tx); F.on = false; w.txs[j].m = w.base; w.txs[j].dirty = false; }
      else { size_t j = s.below(w.txs.size()); c.logf("tx%zu:", j); op_view(w.txs[j]); }
      if (F.all > f0) hits++;
    }
  }
};

void unreadable(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2); if (s.chance(5, 6)) urkel_verif_max_file_size = s.range(1023, 2600);
    Bench b(c); World &w = b.w; w.aspects = 0; memset(&F.err, 0, sizeof F.err); F.on = false; F.all = 0; F.u.clear(); sys_policy = policy;
    w.keys = gen_keys(s, s.chance(1, 6) ? 80 : 16); w.max_hist = 100000; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_COMMIT] = 9; w.w[O_BURST] = 6; w.w[O_REOPEN] = 1; w.w[O_PROVE] = w.w[O_ITER] = 1;
    w.open(); { size_t want = s.chance(1, 6) ? 0 : 2 + s.below(c.thorough ? 12 : 5); w.w[O_INJECT] = 0;
      for (size_t i = 0, n = 10 + s.below(c.thorough ? 80 : 40); i < n; i++) w.step();
      for (size_t i = 0; i < 300 && !exists(w.path + "/" + data_name(want)) && want; i++) w.step(); w.w[O_INJECT] = 1; }
    size_t rounds = 1 + s.below(3);
    for (size_t r = 0; r < rounds; r++) {
      Span sp(s);
      if (r) for (size_t i = 0, n = s.below(8); i < n; i++) w.step();
      bool fresh = s.chance(3, 4); w.aspects = A_ALL;
      b.kept.clear(); b.scan(); b.pick(); b.from.clear(); std::string us; for (auto i : b.U) us += sfmt(" %u", i);
      c.logf("-- %s (kind %d, %s), files%s of %zu, %s", b.mode_name(), F.kinds, strerror(F.err), us.c_str(), b.rd->data.size(), fresh || F.mode == M_CUT ? "reopened" : "open");
      c.label(b.mode_name());
      if (F.mode == M_CUT || fresh) {
        w.close(); w.base = w.committed; if (F.mode == M_CUT) b.damage();
        int e; w.db = api::open(w.path, &e);
        if (!w.db) { // the newest commit itself lies there
          REQUIRE(F.mode == M_CUT, "open fails with %s", err_name(e)); REQUIRE(e == URKEL_EBADOPEN, "open fails with %s", err_name(e));
          std::set<uint32_t> need; auto &z = b.rd->seals[0]; if (z.root.index) { need.insert(z.root.index); auto n = b.rd->node(z.root, nullptr); if (n.type == 2) need.insert(n.value.index); }
          REQUIRE(!b.clear_of(need), "open fails, though the newest commit and its root can be read");
          b.errors++; c.label("open refused"); b.restore(); w.open(); continue; }
        H32 g = api::root(w.db), x = ref_root(w.base); REQUIRE(g == x, "the database opens at another root");
      }
      if (F.mode == M_GONE) b.damage();
      b.ops(5 + s.below(c.thorough ? 40 : 25));
      F.on = false;
      if (F.mode == M_CUT) { c.logf("-- restored"); w.close(); b.restore(); w.base = w.committed; w.open(); }
      else { c.logf("-- readable again"); b.restore(); for (size_t i = 0; i < w.txs.size(); i++) w.full_tx(A_ALL, sfmt("tx%zu, once the data is readable again", i).c_str(), w.txs[i].tx, w.txs[i].m); }
      w.full_db(A_ALL, "once the data is readable again", w.hist.size() < 12);
    }
    w.reopen(); w.full_db(A_ALL, "reopened with readable data"); w.close();
    c.st.sub += b.errors; c.label("calls that met unreadable data", b.hits); c.label("calls refused", b.errors); c.label("calls that had to succeed", b.must); c.label("changes made meanwhile", b.wrote);
    c.nontrivial = b.errors >= 1 && w.hist.size() >= 3;
  });
}
} // namespace
extern const Prop the_prop = {"C24", "a history of at least two commits, and at least one call refused for unreadable data", {
  {"unreadable", unreadable, 12000, 600000, 8},
}};
