// Programs for several threads on one database, and the search for a
// sequential order of their calls that explains every result.
#pragma once
#include "script.hh"
#include "sched.hh"
#include <unordered_set>

namespace conc {
enum K { GET, HAS, PROVE, INSERT, REMOVE, ROOT, INJECT, ITER, TGET, THAS, TPROVE, TINSERT, TREMOVE, TROOT, TINJECT, TCLEAR, TCOMMIT, TITER, TCREATE, TDESTROY, INEXT, NK };
static const char *const kname[] = {"db get", "db has", "db prove", "db insert", "db remove", "db root", "db revert", "db iterate", "get", "has", "prove", "insert", "remove", "root", "rebase", "clear", "commit", "iterate", "begin", "destroy", "next"};

struct COp { K k; int tx = 0; int key = 0, val = 0; int rootsel = -1; bool reads = false; };  // rootsel: -1 current view, 0.. a root known before, -2 the last root this thread saw
struct Res { int ok = 0, err = 0; H32 root{}, arg{}; bool has_arg = false; Bytes v; std::vector<std::pair<H32, Bytes>> recs; uint64_t inv = 0, res = 0; bool ran = false; };

typedef std::string M;  // per key: 0 absent, else 1 + value
struct State {
  M base, committed; std::vector<M> tx; std::set<M> known; int pos = 0;
  std::string ser() const { std::string s = base + "|" + committed + "|"; for (auto &t : tx) s += t + "|"; for (auto &k : known) s += k + "|"; s += (char)pos; return s; }
};

struct Prog {
  Ctx &c; Src &s;
  std::string path;
  Keys keys; std::vector<Bytes> vals;
  std::map<Bytes, int> vidx;
  std::vector<H32> roots;              // committed before the threads start
  std::vector<std::vector<COp>> ops; std::vector<std::vector<Res>> res;
  State st;                            // model state when the threads start
  int nt = 2;
  urkel_t *db = nullptr; urkel_tx_t *tx[2] = {nullptr, nullptr}; urkel_iter_t *shared_it = nullptr; M it_map;
  std::vector<urkel_tx_t *> priv; std::vector<H32> seen; std::vector<int> at;
  std::map<M, H32> rcache; std::map<std::pair<M, int>, Bytes> pcache;

  Prog(Ctx &c_) : c(c_), s(c_.s), path(c_.dir + "/db") {}

  Map to_map(const M &m) const { Map r; for (size_t i = 0; i < keys.size(); i++) if (m[i]) r[keys[i]] = vals[m[i] - 1]; return r; }
  const H32 &root_of(const M &m) { auto it = rcache.find(m); if (it == rcache.end()) it = rcache.emplace(m, ref_root(to_map(m))).first; return it->second; }
  const Bytes &proof_of(const M &m, int k) { auto p = std::make_pair(m, k); auto it = pcache.find(p); if (it == pcache.end()) it = pcache.emplace(p, ref_encode(ref_prove(to_map(m), keys[k]))).first; return it->second; }
  std::string show(const M &m) const { std::string r = "{"; for (size_t i = 0; i < m.size(); i++) if (m[i]) r += sfmt("k%zu=v%d ", i, m[i] - 1); if (r.back() == ' ') r.pop_back(); return r + "}"; }
  std::string txname(int t) const { return t == 2 ? "own tx" : sfmt("tx%d", t); }
  std::string show(const COp &o) const {
    std::string r;
    if (o.k >= TGET && o.k <= TDESTROY) r = txname(o.tx) + " ";
    r += kname[o.k];
    if (o.k == INSERT || o.k == TINSERT) r += sfmt(" k%d=v%d", o.key, o.val);
    else if (o.k <= REMOVE || (o.k >= TGET && o.k <= TREMOVE)) r += sfmt(" k%d", o.key);
    if (o.rootsel >= 0) r += sfmt(" at root %d", o.rootsel); else if (o.rootsel == -2) r += " at the root last seen";
    if (o.reads) r += " (reading along)";
    return r;
  }
  std::string show(const Res &r) const {
    std::string x = r.ok ? "ok" : err_name(r.err);
    if (r.ok && !r.v.empty()) { auto it = vidx.find(r.v); x += it != vidx.end() ? sfmt(" v%d", it->second) : sfmt(" %zu bytes", r.v.size()); }
    if (r.has_arg) x += " (root " + shx(r.arg) + ")";
    if (r.root != H32{}) x += " " + shx(r.root);
    if (!r.recs.empty()) x += sfmt(" %zu records", r.recs.size());
    return x + sfmt(" [%llu-%llu]", (unsigned long long)r.inv, (unsigned long long)r.res);
  }

  // Setup --------------------------------------------------------------------
  void setup(bool readers) {
    gen_limits(c, 1, 2);
    keys = gen_keys(s, 8, s.below(6)); if (keys.size() > 8) keys.resize(8);
    size_t nv = 3 + s.below(4);
    for (size_t i = 0; i < nv; i++) { Bytes v; do v = mk_value(s.pickl({5, 1, 0, 40, 300, 1023}), s.below(1 << 16)); while (vidx.count(v)); vidx[v] = i; vals.push_back(v); }
    M z(keys.size(), 0); st.base = st.committed = z; st.known.insert(z);
    int e; db = api::open(path, &e); REQUIRE(db, "setup: open: %s", err_name(e));
    size_t nc = s.below(readers ? 12 : 7) + readers;
    for (size_t i = 0; i < nc; i++) {
      Span sp(s);
      urkel_tx_t *t = api::tx_create(db); M m = st.base; REQUIRE(t, "setup: begin");
      change(t, m, 1 + s.small(readers ? 20 : 6));
      REQUIRE(api::tx_commit(t).ok, "setup: commit"); api::tx_destroy(t);
      st.base = st.committed = m; st.known.insert(m); roots.push_back(root_of(m));
    }
    if (roots.empty()) roots.push_back(H32{});
    if (s.chance(1, 2)) { c.logf("setup: reopen"); api::close(db); db = api::open(path, &e); REQUIRE(db, "setup: reopen: %s", err_name(e)); }
    if (!readers && s.chance(1, 4)) { const H32 &r = s.pick(roots); for (auto &m : st.known) if (root_of(m) == r) st.base = m; REQUIRE(api::inject(db, r).ok, "setup: revert"); c.logf("setup: revert to %s", shx(r).c_str()); }
    for (int i = 0; i < 2; i++) {
      Span sp(s);
      M m = st.base; const H32 *r = nullptr;
      if (s.chance(1, 4)) { r = &s.pick(roots); for (auto &x : st.known) if (root_of(x) == *r) m = x; }
      tx[i] = api::tx_create(db, r); REQUIRE(tx[i], "setup: begin");
      if (s.chance(1, 2) && !readers) change(tx[i], m, 1 + s.small(4));
      st.tx.push_back(m);
      c.logf("tx%d = %s", i, show(m).c_str());
    }
    c.logf("%zu keys, %zu values, %zu roots, view %s", keys.size(), vals.size(), roots.size(), show(st.base).c_str());
  }
  void change(urkel_tx_t *t, M &m, size_t n) {
    for (size_t i = 0; i < n; i++) {
      int k = s.below(keys.size());
      if (m[k] && s.chance(1, 4)) { REQUIRE(api::tx_remove(t, keys[k]).ok, "setup: remove"); m[k] = 0; }
      else { int v = s.below(vals.size()); REQUIRE(api::tx_insert(t, keys[k], vals[v]).ok, "setup: insert"); m[k] = 1 + v; }
    }
  }
  void gen(size_t max_ops, bool readers) {
    static const unsigned w[NK] = {4, 2, 3, 5, 4, 3, 2, 3, 6, 2, 4, 7, 5, 4, 3, 3, 6, 4, 3, 0, 0};
    static const unsigned wr[NK] = {4, 2, 3, 0, 0, 3, 0, 2, 6, 2, 4, 0, 0, 4, 0, 0, 0, 3, 0, 0, 6};
    nt = s.chance(1, 3) ? 3 : 2;
    ops.resize(nt); res.resize(nt);
    for (int t = 0; t < nt; t++) {
      size_t n = 1 + s.below(max_ops); bool own = false;
      for (size_t i = 0; i < n; i++) {
        Span sp(s);
        COp o; o.k = (K)s.weighted(readers ? wr : w, NK);
        o.key = s.below(keys.size()); o.val = s.below(vals.size());
        if (o.k >= TGET && o.k <= TITER) { o.tx = s.below(own ? 4 : 2); if (o.tx == 3) o.tx = 2; }
        if (o.k == TITER || o.k == ITER) o.reads = s.chance(1, 2);
        if (!readers && (o.k == GET || o.k == HAS || o.k == PROVE || o.k == ITER || o.k == TCREATE)) o.rootsel = s.chance(1, 3) ? (s.chance(1, 3) ? -2 : (int)s.below(roots.size())) : -1;
        if (o.k == INJECT || o.k == TINJECT) o.rootsel = s.chance(1, 3) ? -2 : (int)s.below(roots.size());
        if (o.k == TCREATE) { if (own) { ops[t].push_back({TDESTROY, 2}); } o.tx = 2; own = true; }
        ops[t].push_back(o);
      }
      if (own) ops[t].push_back({TDESTROY, 2});
      res[t].resize(ops[t].size());
      for (auto &o : ops[t]) c.logf("  T%d: %s", t, show(o).c_str());
    }
    priv.assign(nt + 1, nullptr); seen.assign(nt + 1, roots.back()); at.assign(nt + 1, 0);
    for (int t = 0; t < nt; t++) st.tx.push_back(M(1, 'x'));
  }
  Plan gen_plan() {
    Plan p; p.fine = s.below(3);
    uint32_t sc = p.fine == 2 ? s.pickl({20, 100, 400, 1500, 6000}) : p.fine ? s.pickl({10, 40, 150, 600, 3000}) : s.pickl({2, 5, 15, 40});
    size_t k = s.below(8);
    for (size_t i = 0; i < k; i++) { Span sp(s); p.pre.push_back({1 + (uint32_t)s.below(sc), (uint32_t)s.below(6)}); }
    for (int i = 0; i < 10; i++) p.pick.push_back(s.below(6));
    std::string d; for (auto &x : p.pre) d += sfmt(" +%u->%u", x.first, x.second);
    c.logf("schedule: %s points,%s", p.fine == 2 ? "access" : p.fine ? "block" : "lock and call", d.c_str());
    return p;
  }

  // Execution ------------------------------------------------------------------
  void exec(int t, const COp &o, Res &r) {
    urkel_tx_t *x = o.tx == 2 ? priv[t] : tx[o.tx];
    const H32 *arg = nullptr;
    if (o.rootsel == -2) r.arg = seen[t]; else if (o.rootsel >= 0) r.arg = roots[o.rootsel];
    if (o.rootsel != -1) { r.has_arg = true; arg = &r.arg; }
    const H32 &k = keys[o.key];
    auto own_gone = o.k >= TGET && o.k <= TDESTROY && o.k != TCREATE && !x;
    r.inv = sched_now();
    if (own_gone) { r.ok = 0; r.err = -1; r.res = sched_now(); r.ran = true; return; }
    switch (o.k) {
      case GET: { auto g = api::get(db, k, arg); r.ok = g.ok; r.err = g.err; r.v = g.v; break; }
      case HAS: { auto g = api::has(db, k, arg); r.ok = g.ok; r.err = g.err; break; }
      case PROVE: { auto g = api::prove(db, k, arg); r.ok = g.ok; r.err = g.err; r.v = g.v; break; }
      case INSERT: { auto g = api::insert(db, k, vals[o.val]); r.ok = g.ok; r.err = g.err; break; }
      case REMOVE: { auto g = api::remove(db, k); r.ok = g.ok; r.err = g.err; break; }
      case ROOT: r.ok = 1; r.root = api::root(db); seen[t] = r.root; break;
      case INJECT: { auto g = api::inject(db, r.arg); r.ok = g.ok; r.err = g.err; break; }
      case TGET: { auto g = api::tx_get(x, k); r.ok = g.ok; r.err = g.err; r.v = g.v; break; }
      case THAS: { auto g = api::tx_has(x, k); r.ok = g.ok; r.err = g.err; break; }
      case TPROVE: { auto g = api::tx_prove(x, k); r.ok = g.ok; r.err = g.err; r.v = g.v; break; }
      case TINSERT: { auto g = api::tx_insert(x, k, vals[o.val]); r.ok = g.ok; r.err = g.err; break; }
      case TREMOVE: { auto g = api::tx_remove(x, k); r.ok = g.ok; r.err = g.err; break; }
      case TROOT: r.ok = 1; r.root = api::tx_root(x); seen[t] = r.root; break;
      case TINJECT: { auto g = api::tx_inject(x, r.arg); r.ok = g.ok; r.err = g.err; break; }
      case TCLEAR: r.ok = 1; api::tx_clear(x); break;
      case TCOMMIT: { auto g = api::tx_commit(x); r.ok = g.ok; r.err = g.err; break; }
      case ITER: case TITER: {
        int e = 0; urkel_iter_t *it = o.k == ITER ? api::iterate(db, arg, &e) : api::iter_create(x);
        if (!it) { r.ok = 0; r.err = e; break; }
        r.ok = 1;
        for (size_t n = 0; n < 2 * keys.size() + 2; n++) {
          api::It g = api::iter_next(it);
          if (!g.ok) { r.err = g.err; break; }
          r.recs.push_back({g.key, g.v});
          if (o.reads && o.k == TITER) { auto q = api::tx_get(x, g.key); if (!q.ok || q.v != g.v) { api::iter_destroy(it); fail("while a thread iterates over a transaction, its read of %s gives %s instead of the record just returned", kx(g.key).c_str(), q.ok ? "another value" : err_name(q.err)); } }
        }
        api::iter_destroy(it); break; }
      case TCREATE: { int e = 0; priv[t] = api::tx_create(db, arg, &e); r.ok = priv[t] != nullptr; r.err = e; break; }
      case TDESTROY: r.ok = 1; api::tx_destroy(x); priv[t] = nullptr; break;
      case INEXT: { api::It g = api::iter_next(shared_it); r.ok = g.ok; r.err = g.err; if (g.ok) r.recs.push_back({g.key, g.v}); break; }
      case NK: break;
    }
    r.res = sched_now(); r.ran = true;
  }
  void body(int t) { for (size_t i = 0; i < ops[t].size(); i++) { at[t] = i; exec(t, ops[t][i], res[t][i]); } }
  std::string describe(int t) { return show(ops[t][at[t]]); }

  // Afterwards: what is left is observed by calls made one after the other.
  void finish() {
    std::vector<COp> f;
    auto add = [&](COp o) { f.push_back(o); };
    add({ROOT}); add({ITER});
    for (int i = 0; i < 2; i++) { add({TROOT, i}); add({TITER, i}); }
    ops.push_back(f); res.push_back(std::vector<Res>(f.size()));
    for (size_t i = 0; i < f.size(); i++) exec(nt, f[i], res[nt][i]);
  }
  void release() {
    if (shared_it) { api::iter_destroy(shared_it); shared_it = nullptr; }
    for (auto &p : priv) if (p) { api::tx_destroy(p); p = nullptr; }
    for (int i = 0; i < 2; i++) if (tx[i]) { api::tx_destroy(tx[i]); tx[i] = nullptr; }
    if (db) { api::close(db); db = nullptr; }
  }
  H32 reopened_root() { int e; db = api::open(path, &e); REQUIRE(db, "reopen: %s", err_name(e)); H32 r = api::root(db); api::close(db); db = nullptr; return r; }

  // The model --------------------------------------------------------------------
  bool reads_map(const M &m, const COp &o, const Res &r) {
    switch (o.k) {
      case GET: case TGET: return m[o.key] ? r.ok && r.v == vals[m[o.key] - 1] : !r.ok && r.err == URKEL_ENOTFOUND;
      case HAS: case THAS: return m[o.key] ? r.ok : !r.ok && r.err == URKEL_ENOTFOUND;
      case PROVE: case TPROVE: return r.ok && r.v == proof_of(m, o.key);
      case ITER: case TITER: {
        if (!r.ok || r.err != URKEL_EITEREND) return false;
        Map x = to_map(m); if (x.size() != r.recs.size()) return false;
        size_t i = 0; for (auto &kv : x) { if (r.recs[i].first != kv.first || r.recs[i].second != kv.second) return false; i++; }
        return true; }
      default: return false;
    }
  }
  const M *find_root(const State &a, const H32 &h) { for (auto &m : a.known) if (root_of(m) == h) return &m; return nullptr; }
  bool apply(State &a, int t, const COp &o, const Res &r) {
    int xi = o.tx == 2 ? 2 + t : o.tx;
    switch (o.k) {
      case GET: case HAS: case PROVE: case ITER: {
        if (!r.has_arg) return reads_map(a.base, o, r);
        const M *m = find_root(a, r.arg);
        return m ? reads_map(*m, o, r) : !r.ok && r.err == URKEL_ENOTFOUND; }
      case INSERT: if (!r.ok) return false; a.base[o.key] = 1 + o.val; a.committed = a.base; a.known.insert(a.base); return true;
      case REMOVE:
        if (!a.base[o.key]) return !r.ok && r.err == URKEL_ENOTFOUND;
        if (!r.ok) return false;
        a.base[o.key] = 0; a.committed = a.base; a.known.insert(a.base); return true;
      case ROOT: return r.root == root_of(a.base);
      case INJECT: { const M *m = find_root(a, r.arg); if (!m) return !r.ok && r.err == URKEL_ENOTFOUND; if (!r.ok) return false; a.base = *m; return true; }
      case TCREATE: {
        const M *m = r.has_arg ? find_root(a, r.arg) : &a.base;
        if (!m) return !r.ok && r.err == URKEL_ENOTFOUND;
        if (!r.ok) return false;
        a.tx[xi] = *m; return true; }
      default: break;
    }
    if (o.k == INEXT) {
      Map x = to_map(it_map);
      if (a.pos >= (int)x.size()) return !r.ok && r.err == URKEL_EITEREND;
      auto it = x.begin(); std::advance(it, a.pos);
      if (!r.ok || r.recs[0].first != it->first || r.recs[0].second != it->second) return false;
      a.pos++; return true;
    }
    M &m = a.tx[xi];
    if (m == "x") return r.err == -1;      // the transaction could not be created
    if (r.err == -1 && !r.ok) return false;
    switch (o.k) {
      case TGET: case THAS: case TPROVE: case TITER: return reads_map(m, o, r);
      case TINSERT: if (!r.ok) return false; m[o.key] = 1 + o.val; return true;
      case TREMOVE: if (!m[o.key]) return !r.ok && r.err == URKEL_ENOTFOUND; if (!r.ok) return false; m[o.key] = 0; return true;
      case TROOT: return r.root == root_of(m);
      case TINJECT: { const M *k = find_root(a, r.arg); if (!k) return !r.ok && r.err == URKEL_ENOTFOUND; if (!r.ok) return false; m = *k; return true; }
      case TCLEAR: m = a.base; return true;
      case TCOMMIT: if (!r.ok) return false; a.base = a.committed = m; a.known.insert(m); return true;
      case TDESTROY: m = "x"; return true;
      default: return false;
    }
  }
  std::unordered_set<std::string> visited; size_t best = 0; std::vector<size_t> bestpos; State bestst; H32 want_durable; bool check_durable = false;
  bool dfs(std::vector<size_t> &pos, const State &a, size_t done) {
    bool all = true;
    for (size_t t = 0; t < ops.size(); t++) if (pos[t] < ops[t].size()) all = false;
    if (all) { if (done + 1 > best) { best = done + 1; bestpos = pos; bestst = a; } return !check_durable || root_of(a.committed) == want_durable; }
    std::string key; for (auto p : pos) key += (char)p; key += a.ser();
    if (!visited.insert(key).second) return false;
    if (done >= best) { best = done; bestpos = pos; bestst = a; }
    uint64_t min_res = ~0ULL;
    for (size_t t = 0; t < ops.size(); t++) if (pos[t] < ops[t].size()) min_res = std::min(min_res, res[t][pos[t]].res);
    for (size_t t = 0; t < ops.size(); t++) {
      if (pos[t] >= ops[t].size()) continue;
      const Res &r = res[t][pos[t]];
      if (r.inv > min_res) continue;
      State b = a;
      if (!apply(b, t, ops[t][pos[t]], r)) continue;
      pos[t]++;
      if (dfs(pos, b, done + 1)) return true;
      pos[t]--;
    }
    return false;
  }
  void judge() {
    std::vector<size_t> pos(ops.size(), 0);
    st.tx.push_back(M(1, 'x'));
    if (dfs(pos, st, 0)) return;
    std::string m = "no sequential order of the calls explains the results:";
    for (size_t t = 0; t < ops.size(); t++) { m += sfmt(" %s", (int)t < nt ? sfmt("T%zu:", t).c_str() : "afterwards:"); for (size_t i = 0; i < ops[t].size(); i++) m += " " + show(ops[t][i]) + " -> " + show(res[t][i]) + ";"; }
    m += " furthest order reaches view " + show(bestst.base);
    for (int i = 0; i < 2; i++) m += sfmt(", tx%d ", i) + show(bestst.tx[i]);
    m += ", then stuck at:"; for (size_t t = 0; t < ops.size(); t++) if (t < bestpos.size() && bestpos[t] < ops[t].size()) m += " [" + show(ops[t][bestpos[t]]) + "]";
    if (check_durable) m += ", durable root " + shx(want_durable);
    fail("%.3500s", m.c_str());
  }
  static bool changes(K k) { return k == INSERT || k == REMOVE || k == INJECT || k == TINSERT || k == TREMOVE || k == TINJECT || k == TCLEAR || k == TCOMMIT || k == INEXT; }
  // Did calls of different threads overlap, one of them a change?
  size_t overlaps() {
    size_t n = 0;
    for (int a = 0; a < nt; a++) for (int b = a + 1; b < nt; b++) for (size_t i = 0; i < ops[a].size(); i++) for (size_t j = 0; j < ops[b].size(); j++)
      if (res[a][i].ran && res[b][j].ran && res[a][i].inv < res[b][j].res && res[b][j].inv < res[a][i].res && (changes(ops[a][i].k) || changes(ops[b][j].k))) n++;
    return n;
  }
};
} // namespace conc
