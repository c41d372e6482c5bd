#include "script.hh"
#include "seen.hh"

static struct { bool on; int mode; uint64_t k, n, fired; int err; int64_t budget; uint64_t arg; bool writes_only; char what[64]; } F;
static Action policy(const Call &c) {
  if (!F.on) return {Action::PASS, 0, 0};
  bool wr = c.sc == S_WRITE || c.sc == S_PWRITE;
  bool el = wr || c.sc == S_OPEN || c.sc == S_FTRUNCATE || c.sc == S_MMAP || c.sc == S_FSTAT || c.sc == S_FSYNC || c.sc == S_TRUNCATE || c.sc == S_RENAME || c.sc == S_LSEEK;
  if (!strcmp(c.file, "@rand") || !strcmp(c.file, "urandom")) el = false;
  if (F.mode == 2) { // disk full after so many bytes
    if (!wr) return {Action::PASS, 0, 0};
    if ((int64_t)c.len <= F.budget) { F.budget -= c.len; return {Action::PASS, 0, 0}; }
    F.fired++; snprintf(F.what, sizeof F.what, "disk full at %s", c.file);
    if (F.budget > 0) { size_t n = F.budget; F.budget = 0; return {Action::PARTIAL, 0, n}; }
    return {Action::ERR, ENOSPC, 0};
  }
  if (F.mode == 5) { if (c.sc != S_OPEN) return {Action::PASS, 0, 0}; F.fired++; snprintf(F.what, sizeof F.what, "no file handles at %s", c.file); return {Action::ERR, EMFILE, 0}; }
  if (!el || (F.writes_only && !wr && !(c.sc == S_OPEN && (c.flags & O_CREAT)) && c.sc != S_FTRUNCATE)) return {Action::PASS, 0, 0};
  if (F.mode == 6) { // writes fail, and cutting off what they left fails too
    if (c.sc == S_FTRUNCATE || c.sc == S_TRUNCATE) { F.fired++; snprintf(F.what, sizeof F.what, "%s %s", sc_name[c.sc], c.file); return {Action::ERR, EIO, 0}; }
    if (!wr) return {Action::PASS, 0, 0};
  }
  uint64_t i = F.n++;
  if (i < F.k) return {Action::PASS, 0, 0};
  if (F.mode == 0 && i > F.k) return {Action::PASS, 0, 0};
  if ((F.mode == 3 || F.mode == 6) && i == F.k && wr && c.len > 1) { F.fired++; snprintf(F.what, sizeof F.what, "partial write to %s", c.file); return {Action::PARTIAL, 0, (size_t)(F.arg % (c.len - 1)) + 1}; }
  if (F.mode == 4) { if (i == F.k && wr && c.len > 1) { F.fired++; snprintf(F.what, sizeof F.what, "short write to %s", c.file); return {Action::PARTIAL, 0, (size_t)(F.arg % (c.len - 1)) + 1}; } return {Action::PASS, 0, 0}; }
  F.fired++; snprintf(F.what, sizeof F.what, "%s %s", sc_name[c.sc], c.file);
  return {Action::ERR, F.err, 0};
}
static void arm(Ctx &c) {
  Src &s = c.s; Span sp(s);
  static const unsigned w[] = {6, 6, 5, 5, 2, 2, 4};
  F.mode = s.weighted(w, 7); F.k = s.chance(1, 2) ? s.below(3) : s.below(12); F.n = F.fired = 0; F.err = s.pickl({ENOSPC, EIO, EMFILE, EDQUOT, ENOMEM, EFBIG, EINTR, EACCES});
  F.budget = s.chance(1, 3) ? s.below(60) : s.below(4000); F.arg = s.seed(); F.writes_only = s.chance(1, 2); F.what[0] = 0; F.on = true;
  if (F.err == EINTR && F.mode != 0) F.err = EIO; // an interruption that never ends is not a failure
}
static const char *mode_name() { static const char *const n[] = {"one error", "errors from there", "disk full", "partial write, then errors", "short write", "no file handles", "partial write, errors, no cutting off"}; return n[F.mode]; }

static void faults_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c);
    World w(c, 0); w.keys = gen_keys(s, 20); w.max_hist = 1000; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_REOPEN] = 1; w.w[O_COMMIT] = 6;
    w.open(); sys_policy = policy; F.on = false;
    unsigned failed = 0, fired = 0, calls = 0; std::set<H32> failed_roots; 
    size_t rounds = 2 + s.below(c.thorough ? 10 : 6);
    auto gone = [&](const char *when) { for (auto &r : failed_roots) if (!w.hist.count(r)) { bool ever = false; for (auto &o : w.order) if (o == r) ever = true; if (ever) continue; int e; urkel_tx_t *t = api::tx_create(w.db, &r, &e); if (t) api::tx_destroy(t); w.chk(A_HIST, !t && e == URKEL_ENOTFOUND, "%s the root of a failed commit is there (%p, %s)", when, (void *)t, err_name(e)); } };
    for (size_t r = 0; r < rounds; r++) {
      Span sp(s);
      for (size_t i = 0, n = s.below(16); i < n; i++) w.step();
      if (w.txs.empty()) w.tx_open();
      size_t ti = s.below(w.txs.size());
      unsigned how = s.below(4);
      if (how < 3) { Span q(s); for (size_t i = 0, n = 1 + s.small(how == 2 ? 80 : 12); i < n; i++) { Span q2(s); if (w.txs[ti].m.size() && s.chance(1, 4)) w.do_remove(w.txs[ti], w.some_key(w.txs[ti].m, true)); else w.do_insert(w.txs[ti], w.some_key(w.txs[ti].m, false), gen_value(s)); } }
      Seen a = see(w); a.files.clear();
      unsigned attempts = s.range(1, 3);
      for (unsigned at = 0; at < attempts; at++) {
        Map want; int ok, err; const char *what;
        H32 k; Bytes v; bool del = false;
        if (how == 3) { k = w.some_key(w.base, s.chance(1, 2)); v = gen_value(s); del = w.base.count(k) && s.chance(1, 2); want = w.base; if (del) want.erase(k); else want[k] = v; }
        else want = w.txs[ti].m;
        arm(c);
        if (how == 3) F.writes_only = true;
        if (how == 3 && F.mode == 5) F.mode = 1;
        api::R x = how < 3 ? api::tx_commit(w.txs[ti].tx) : del ? api::remove(w.db, k) : api::insert(w.db, k, v);
        F.on = false; calls++; ok = x.ok; err = x.err; what = how < 3 ? "commit" : "one-shot change";
        if (F.fired) { fired++; w.aspects = A_ALL; c.label(sfmt("%s%s", mode_name(), ok ? " (survived)" : "")); }
        c.logf("%s of %zu records: %s at %llu: %s%s%s", what, want.size(), mode_name(), (unsigned long long)F.k, F.fired ? F.what : "not reached", ok ? ", succeeds" : ", fails with ", ok ? "" : err_name(err));
        if (!F.fired) w.chk(A_ALL, ok, "%s fails with %s", what, err_name(err));
        if (ok) { if (how < 3) w.txs[ti].dirty = false; w.did_commit(want); H32 g = api::root(w.db); w.chk(A_ALL, g == ref_root(want), "a %s that succeeded (%s: %s) is not there", what, mode_name(), F.what); a = see(w); a.files.clear(); failed_roots.erase(ref_root(want)); if (how < 3) w.full_tx(0, "the committed transaction", w.txs[ti].tx, want); continue; }
        failed++;
        REQUIRE(err == URKEL_EBADWRITE, "a failed %s (%s: %s) reports %s instead of EBADWRITE", what, mode_name(), F.what, err_name(err));
        failed_roots.insert(ref_root(want));
        // the transaction: either as before or at the database's root, in every respect
        if (how < 3) {
          TxM &t = w.txs[ti]; H32 g = api::tx_root(t.tx);
          if (g == ref_root(w.base)) { t.m = w.base; t.dirty = false; } else REQUIRE(g == ref_root(t.m), "after a failed commit (%s: %s) its transaction has a root of neither its records nor the database's", mode_name(), F.what);
          if (s.chance(1, 2)) w.full_tx(0, "the transaction of the failed commit", t.tx, t.m);
        }
        // everything else
        { std::vector<TxM> keep; TxM mine{nullptr, Map(), false};
          Seen b = see(w); b.files.clear(); 
          for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) { if (how < 3 && a.v[i].first.compare(0, sfmt("transaction %zu ", ti).size(), sfmt("transaction %zu ", ti)) == 0) continue; REQUIRE(a.v[i] == b.v[i], "after a failed %s (%s: %s): %s has changed", what, mode_name(), F.what, a.v[i].first.c_str()); }
          REQUIRE(a.v.size() == b.v.size(), "after a failed %s the views differ", what); }
        gone("right after it failed,");
        // what is done with the transaction
        if (how < 3) switch (s.below(5)) {
          case 0: c.logf("  destroyed"); api::tx_destroy(w.txs[ti].tx); w.txs.erase(w.txs.begin() + ti); at = attempts; break;
          case 1: c.logf("  cleared"); api::tx_clear(w.txs[ti].tx); w.txs[ti].m = w.base; w.txs[ti].dirty = false; w.full_tx(0, "the cleared transaction", w.txs[ti].tx, w.base); break;
          case 2: { c.logf("  changed further"); for (int i = 0; i < 3; i++) w.do_insert(w.txs[ti], w.some_key(w.txs[ti].m, false), gen_value(s)); break; }
          case 3: { c.logf("  rebased"); H32 q = w.some_root(); api::R z = api::tx_inject(w.txs[ti].tx, q); w.chk(A_ALL, z.ok, "re-basing after a failed commit: %s", err_name(z.err)); w.txs[ti].m = w.hist[q]; break; }
          default: break;
        }
        if (s.chance(1, 6)) { w.reopen(); w.full_db(A_REOPEN, "reopened after a failed commit", false); at = attempts; gone("after reopening"); }
        if (w.txs.size() <= ti) break;
        a = see(w); a.files.clear();
      }
      if (s.chance(1, 2)) { if (w.txs.empty()) w.tx_open(); w.do_insert(w.txs[0], w.some_key(w.txs[0].m, false), gen_value(s)); w.do_commit(0); }
    }
    if (fired) {
      w.full_db(A_REOPEN, "at the end"); 
      if (w.txs.empty()) w.tx_open();
      w.do_insert(w.txs[0], w.keys[0], gen_value(s)); w.do_commit(0); for (auto &o : w.order) failed_roots.erase(o);
      w.reopen(); w.full_db(A_REOPEN, "reopened at the end"); gone("after reopening");
    }
    c.label("commits that failed", failed); c.nontrivial = failed >= 1 && w.n.commits >= 2;
    w.close();
  });
}
// One commit, every call of it failing in turn.
static void each_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 4, 5);
    World w(c, 0); w.keys = gen_keys(s, 20); w.max_hist = 1000; w.w[O_FULL] = 0; w.w[O_BAD] = 0;
    w.open(); sys_policy = policy; F.on = false;
    for (size_t i = 0, n = 5 + s.below(25); i < n; i++) w.step();
    Map m = w.base; Changes ch = gen_changes(s, w.keys, m, 60); int mode = s.pickl({0, 1, 3, 6}), err = s.pickl({ENOSPC, EIO, EMFILE}); bool wo = s.chance(1, 3); uint64_t arg = s.seed();
    unsigned failed = 0;
    for (auto &x : ch) c.logf("to commit: %s %s %zu bytes", x.del ? "remove" : "insert", kx(x.key).c_str(), x.v.size());
    for (uint64_t k = 0; k < 200; k++) {
      urkel_tx_t *t = api::tx_create(w.db); w.chk(A_ALL, t, "no transaction: %s", err_name(urkel_errno));
      m = w.base; Changes cc; for (auto &x : ch) { if (x.del && !m.count(x.key)) continue; cc.push_back(x); if (x.del) m.erase(x.key); else m[x.key] = x.v; } // reopening may have undone a revert
      ch = cc;
      for (auto &x : ch) { api::R r = x.del ? api::tx_remove(t, x.key) : api::tx_insert(t, x.key, x.v); w.chk(A_ALL, r.ok, "%s after %u failed commits: %s", x.del ? "remove" : "insert", failed, err_name(r.err)); }
      F.mode = mode; F.err = err; F.writes_only = wo; F.arg = arg + k; F.k = k; F.n = F.fired = 0; F.what[0] = 0; F.on = true;
      api::R r = api::tx_commit(t); F.on = false;
      if (F.fired) w.aspects = A_ALL;
      c.logf("call %llu (%s): %s", (unsigned long long)k, F.fired ? F.what : "not reached", r.ok ? "succeeds" : err_name(r.err));
      if (!r.ok) { failed++; c.st.sub++; { Bytes fw = F.what; c.label("failed at " + fw.substr(0, fw.find(' '))); } REQUIRE(F.fired, "commit fails with %s", err_name(r.err)); REQUIRE(r.err == URKEL_EBADWRITE, "a failed commit (%s) reports %s", F.what, err_name(r.err)); }
      if (!r.ok && k % 3 == 0) { // and again with the same transaction
        H32 g = api::tx_root(t); if (g == ref_root(w.base)) for (auto &x : ch) { api::R q = x.del ? api::tx_remove(t, x.key) : api::tx_insert(t, x.key, x.v); w.chk(A_ALL, q.ok, "change of the transaction after its commit failed: %s", err_name(q.err)); }
        w.chk(A_ALL, api::tx_root(t) == ref_root(m), "the transaction gives another root after its commit failed (%s)", F.what);
      }
      api::tx_destroy(t);
      H32 g = api::root(w.db); w.chk(A_ALL, g == ref_root(r.ok ? m : w.base), "after a commit that %s (%s) the root is %s", r.ok ? "succeeded" : "failed", F.what, shx(g).c_str());
      if (r.ok) w.did_commit(m);
      w.full_db(A_REOPEN, "after a failed commit", k % 4 == 0) ;
      if (r.ok) { if (!F.fired) break; m = w.base; Map q = m; ch.clear(); H32 kk = w.keys[k % w.keys.size()]; Bytes v = mk_value(k % 50 + 1, arg + k); ch.push_back({kk, false, v}); m[kk] = v; }
      if (k % 5 == 4) { w.reopen(); w.full_db(A_REOPEN, "reopened after a failed commit", k % 2); }
    }
    w.reopen(); w.full_db(A_REOPEN, "reopened at the end");
    c.nontrivial = failed >= 2; c.label("commits that failed", failed);
    w.close();
  });
}
const Prop the_prop = {"C12", "faults: at least one commit that failed and two that succeeded; each: at least two calls of one commit failed in turn",
  {{"faults", faults_stage, 6000, 480000, 8}, {"each", each_stage, 1600, 96000, 8}}};
