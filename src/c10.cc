#include "script.hh"

static Progress *pr; static uint64_t kill_k; static int kill_mode; static uint64_t kill_arg;
static Action kill_policy(const Call &c) {
  if (!mutating(c)) return {Action::PASS, 0, 0};
  uint64_t i = pr->calls++;
  if (i != kill_k) return {Action::PASS, 0, 0};
  pr->killed_at = i; snprintf(pr->what, sizeof pr->what, "%s %s", sc_name[c.sc], c.file);
  if (kill_mode == 1 && (c.sc == S_WRITE || c.sc == S_PWRITE) && c.len > 1) return {Action::KILL_PARTIAL, 0, (size_t)(kill_arg % (c.len - 1)) + 1};
  if (kill_mode == 2) return {Action::KILL_AFTER, 0, 0};
  return {Action::KILL, 0, 0};
}
// Runs body in a child that is killed at mutating call k. Returns true if it was killed.
template <class F> static bool killed_run(uint64_t k, int mode, uint64_t arg, F body) {
  pr->calls = 0; pr->killed_at = ~0ULL; pr->unexpected = 0; pr->what[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) { kill_k = k; kill_mode = mode; kill_arg = arg; sys_policy = kill_policy; body(); _exit(0); }
  int st; while (waitpid(pid, &st, 0) < 0) {}
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 9 && pr->unexpected) throw Skip{pr->msg};
  fail("the process ends by itself (status %x)", st);
}
static uint64_t cheap(uint64_t &x) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 33; }

// Which of the allowed states is there? Everything of it is compared.
static size_t check_state(Ctx &c, const Script &sc, const std::vector<H32> &roots, const std::string &path, size_t lo, size_t hi, uint64_t rnd) {
  int e; urkel_t *db = api::open(path, &e);
  REQUIRE(db, "the database cannot be opened after the kill: %s", err_name(e));
  struct G { urkel_t *&d; ~G() { if (d) api::close(d); } } g{db};
  H32 r = api::root(db); size_t at = (size_t)-1;
  for (size_t i = lo; i <= hi; i++) if (roots[i] == r) at = i;
  if (at == (size_t)-1) { for (size_t i = 0; i < roots.size(); i++) if (roots[i] == r) fail("after the kill the database is at commit %zu, it should be at %zu%s", i, lo, hi > lo ? " or the one in flight" : ""); fail("after the kill the database is at root %s, which is no commit at all", shx(r).c_str()); }
  auto look = [&](const char *what, urkel_tx_t *t, const Map &m) {
    for (auto &k : sc.keys) {
      api::RV v = api::tx_get(t, k); auto it = m.find(k);
      if (it == m.end()) REQUIRE(!v.ok && v.err == URKEL_ENOTFOUND, "%s: key %s: %s instead of not found", what, kx(k).c_str(), v.ok ? "found" : err_name(v.err));
      else { REQUIRE(v.ok, "%s: key %s fails with %s", what, kx(k).c_str(), err_name(v.err)); REQUIRE(v.v == it->second, "%s: key %s has another value", what, kx(k).c_str()); }
    }
    urkel_iter_t *it = api::iter_create(t); size_t n = 0; bool ok = true; int er = 0;
    for (auto &kv : m) { api::It x = api::iter_next(it); if (!x.ok || x.key != kv.first || x.v != kv.second) { ok = false; break; } n++; }
    if (ok) { api::It x = api::iter_next(it); er = x.err; ok = !x.ok && x.err == URKEL_EITEREND; }
    api::iter_destroy(it);
    REQUIRE(ok, "%s: iteration is wrong after %zu of %zu records (%s)", what, n, m.size(), err_name(er));
  };
  urkel_tx_t *t = api::tx_create(db); REQUIRE(t, "no transaction after the kill: %s", err_name(urkel_errno));
  look("after the kill", t, sc.states[at]);
  // earlier roots
  for (size_t i = 0; i <= at; i++) { urkel_tx_t *x = api::tx_create(db, &roots[i], &e); REQUIRE(x, "after the kill the root of commit %zu of %zu is refused: %s", i, at, err_name(e)); look(sfmt("commit %zu of %zu after the kill", i, at).c_str(), x, sc.states[i]); api::tx_destroy(x); }
  // further work
  Map m = sc.states[at];
  for (unsigned j = 0; j < 3; j++) {
    const H32 &k = sc.keys[cheap(rnd) % sc.keys.size()]; 
    if (m.count(k) && cheap(rnd) % 3 == 0) { api::R x = api::tx_remove(t, k); REQUIRE(x.ok, "remove after the kill: %s", err_name(x.err)); m.erase(k); }
    else { Bytes v = mk_value(cheap(rnd) % 300, cheap(rnd)); api::R x = api::tx_insert(t, k, v); REQUIRE(x.ok, "insert after the kill: %s", err_name(x.err)); m[k] = v; }
    api::R x = api::tx_commit(t); REQUIRE(x.ok, "commit after the kill: %s", err_name(x.err));
  }
  look("a commit after the kill", t, m);
  api::tx_destroy(t);
  api::close(db); db = nullptr;
  db = api::open(path, &e); REQUIRE(db, "cannot be opened after further commits: %s", err_name(e));
  REQUIRE(api::root(db) == ref_root(m), "further commits after the kill are not there after reopening");
  t = api::tx_create(db); look("reopened after further commits", t, m); api::tx_destroy(t);
  t = api::tx_create(db, &roots[at], &e); REQUIRE(t, "the recovered root is refused after further commits: %s", err_name(e)); look("the recovered root after further commits", t, sc.states[at]); api::tx_destroy(t);
  return at;
}

static void one(Ctx &c, const Script &sc, const std::vector<H32> &roots, uint64_t k, int mode, uint64_t rnd, int again, bool &ended) {
  std::string path = c.dir + "/db"; remove_dir(path);
  pr->started = pr->committed = 0;
  bool killed = killed_run(k, mode, rnd, [&] { run_script(sc, path, pr); });
  if (!killed) { ended = true; return; }
  uint64_t done = pr->committed, begun = pr->started; Bytes where = pr->what;
  c.logf("killed %s %s (mutating call %llu), %llu commits done%s", mode == 0 ? "before" : mode == 1 ? "within" : "after", where.c_str(), (unsigned long long)k, (unsigned long long)done, begun > done ? ", one in flight" : "");
  c.st.sub++; c.label("kills"); c.label("killed at " + Bytes(where).substr(0, where.find(' '))); if (begun > done) c.label("kills within a commit");
  uint64_t x = rnd;
  for (int i = 0; i < again; i++) {
    uint64_t j = cheap(x) % 8; int md = cheap(x) % 3;
    bool kk = killed_run(j, md, cheap(x), [&] { int e; urkel_t *d = api::open(path, &e); if (!d) { snprintf(pr->msg, sizeof pr->msg, "%s", err_name(e)); _exit(11); } api::close(d); });
    if (kk) { c.logf("  recovery killed %s %s", md == 0 ? "before" : md == 1 ? "within" : "after", pr->what); c.label("kills within recovery"); }
  }
  size_t at = check_state(c, sc, roots, path, done, begun, x);
  if (at > done) c.label("the commit in flight survived");
}

static void enumerate_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; pr = new_progress(); gen_limits(c);
    Script sc = gen_script(c, c.thorough ? 14 : 9); auto roots = sc.roots(); uint64_t rnd = s.seed();
    std::set<size_t> seen; uint64_t k; bool ended = false;
    for (k = 0; !ended && k < 400; k++) {
      one(c, sc, roots, k, 0, rnd + k, (rnd + k) % 3 == 0 ? 1 + (k % 3) : 0, ended);
      if (!ended) { bool e2 = false; one(c, sc, roots, k, 1, rnd * 3 + k, (rnd + k) % 4 == 0 ? 2 : 0, e2); }
    }
    c.label("kill points enumerated", k - 1);
    c.nontrivial = k >= 8 && sc.states.size() >= 3;
  });
}
// Longer histories, kills at random points, life goes on from there: kill upon kill.
static void chain_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; pr = new_progress(); gen_limits(c); std::string path = c.dir + "/db";
    Keys keys = gen_keys(s, 16); Map cur; std::vector<Map> states{Map()}; unsigned kills = 0;
    size_t rounds = 3 + s.below(c.thorough ? 12 : 6);
    for (size_t r = 0; r < rounds; r++) {
      Span sp(s);
      // a script that goes on from the current state
      Script sc; sc.keys = keys; sc.states.clear(); sc.states.push_back(cur); Map m = cur;
      sc.ops.push_back({SO_OPEN, {}, 0});
      for (size_t i = 0, n = 1 + s.below(6); i < n; i++) { SOp o{s.chance(1, 2) ? SO_COMMIT : SO_REUSE, {}, 0}; o.ch = gen_changes(s, keys, m, s.chance(1, 4) ? 30 : 6); sc.ops.push_back(o); sc.states.push_back(m); if (s.chance(1, 6)) { sc.ops.push_back({SO_CLOSE, {}, 0}); sc.ops.push_back({SO_OPEN, {}, 0}); } }
      sc.ops.push_back({SO_CLOSE, {}, 0});
      pr->started = pr->committed = 0; uint64_t k = s.below(4 + 4 * sc.ops.size()); int mode = s.below(3);
      bool killed = killed_run(k, mode, s.seed(), [&] { run_script(sc, path, pr); });
      size_t lo = pr->committed, hi = pr->started; if (killed) { kills++; c.logf("round %zu: killed %s %s, %zu of %zu commits done", r, mode == 0 ? "before" : mode == 1 ? "within" : "after", pr->what, lo, sc.states.size() - 1); } else lo = hi = sc.states.size() - 1;
      for (size_t i = 0; i <= lo; i++) states.push_back(sc.states[i]);
      // which one?
      int e; urkel_t *db = api::open(path, &e); REQUIRE(db, "cannot be opened after the kill: %s", err_name(e));
      H32 root = api::root(db); size_t at = (size_t)-1; for (size_t i = lo; i <= hi; i++) if (ref_root(sc.states[i]) == root) at = i;
      REQUIRE(at != (size_t)-1, "round %zu: after the kill the root %s is neither that of the last commit nor of the one in flight", r, shx(root).c_str());
      cur = sc.states[at]; states.push_back(cur);
      std::set<H32> done;
      for (auto &st : states) { H32 h = ref_root(st); if (!done.insert(h).second) continue; urkel_tx_t *t = api::tx_create(db, &h, &e); REQUIRE(t, "round %zu: a committed root is refused: %s", r, err_name(e)); for (auto &kk : keys) { api::RV v = api::tx_get(t, kk); auto it = st.find(kk); REQUIRE(it == st.end() ? !v.ok && v.err == URKEL_ENOTFOUND : v.ok && v.v == it->second, "round %zu: a committed root has changed at key %s (%s)", r, kx(kk).c_str(), v.ok ? "another value" : err_name(v.err)); } api::tx_destroy(t); }
      api::close(db);
    }
    c.label("kills in chains", kills); c.nontrivial = kills >= 2 && states.size() > 6;
  });
}
const Prop the_prop = {"C10", "enumerate: every mutating system call of a script with at least two commits and eight such calls is a kill point; chain: at least two kills in one life",
  {{"enumerate", enumerate_stage, 450, 8000, 8}, {"chain", chain_stage, 1500, 25000, 8}}};
