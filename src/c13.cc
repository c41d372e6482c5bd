#include "life.hh"
#include <sys/resource.h>

// What goes wrong while opening.
static struct { bool on; int mode; int64_t k, n, left; SC sc; char file[16]; int err; uint64_t fired; char what[64]; uint64_t arg; } F;
static bool touched; // something was written since
static Action policy(const Call &c) {
  if (!F.on) return {Action::PASS, 0, 0};
  if (!strcmp(c.file, "@rand") || !strcmp(c.file, "urandom")) return {Action::PASS, 0, 0};
  if (c.sc == S_MUNMAP || c.sc == S_GETCWD) return {Action::PASS, 0, 0};
  if (F.mode == 1 && c.sc != F.sc) return {Action::PASS, 0, 0};
  if (F.mode == 2 && strcmp(c.file, F.file)) return {Action::PASS, 0, 0};
  if (F.mode == 3 && (c.sc != F.sc || strcmp(c.file, F.file))) return {Action::PASS, 0, 0};
  if (F.n++ < F.k || F.left == 0) return {Action::PASS, 0, 0};
  if (F.left > 0) F.left--;
  F.fired++; snprintf(F.what, sizeof F.what, "%s %s", sc_name[c.sc], c.file);
  if (F.err == 0) { if (c.sc == S_READ || c.sc == S_PREAD || c.sc == S_WRITE || c.sc == S_PWRITE) return {Action::PARTIAL, 0, (size_t)(F.arg % (c.len ? c.len : 1)) + 1}; return {Action::ERR, EINTR, 0}; }
  return {Action::ERR, F.err, 0};
}
static const SC kinds[] = {S_OPEN, S_OPENDIR, S_READDIR, S_READ, S_PREAD, S_MMAP, S_FCNTL, S_ACCESS, S_STAT, S_FSTAT, S_UNLINK, S_FTRUNCATE, S_CLOSE, S_WRITE, S_MKDIR, S_CLOSEDIR};
static void arm(Ctx &c, const Files &files) {
  Src &s = c.s; Span sp(s);
  F.mode = s.below(4); F.n = F.fired = 0; F.what[0] = 0; F.arg = s.seed();
  F.sc = kinds[s.below(sizeof kinds / sizeof *kinds)];
  std::vector<std::string> nm{"lock", "meta"}; for (auto &f : files) nm.push_back(f.first); nm.push_back(nm.back()); nm.push_back("0000000001");
  snprintf(F.file, sizeof F.file, "%s", nm[s.below(nm.size())].c_str());
  if (F.mode == 3) { static const SC k2[] = {S_OPEN, S_READ, S_PREAD, S_MMAP, S_FSTAT, S_FCNTL, S_UNLINK, S_FTRUNCATE, S_CLOSE}; F.sc = k2[s.below(9)]; }
  F.k = F.mode == 0 ? s.below(24) : s.below(3);
  F.err = s.pickl({EMFILE, EIO, EACCES, ENFILE, EINTR, ENOMEM, EAGAIN, ENOENT, ENOSPC, 0});
  if (F.err == ENOENT && F.mode != 1) F.err = EPERM; // a file that seems not to exist is another matter
  if (F.err == ENOENT) F.err = EROFS;
  F.left = s.pickl({1, 1, 2, 3, 0xffff}); if (F.left == 0xffff) F.left = (F.err == EINTR || F.err == EAGAIN || F.err == 0) ? 4 : -1;
  F.on = true;
}
static std::string spec() { return sfmt("%s%s%s%s from %lld on, %lld times", F.mode == 0 ? "any call" : "", F.mode == 1 || F.mode == 3 ? sc_name[F.sc] : "", F.mode >= 2 ? " " : "", F.mode >= 2 ? F.file : "", (long long)F.k, (long long)F.left); }
static std::string fault_err() { return F.err ? strerror(F.err) : "short or interrupted"; }

struct Bench { Life L; bool damaged = false; Files start; std::string what; Bench(Ctx &c) : L(c, A_REOPEN | A_HIST) {} };
static void prepare(Ctx &c, Bench &b) {
  Src &s = c.s; Life &L = b.L; World &w = L.w;
  w.keys = gen_keys(s, 12); w.max_hist = 100000; w.w[O_REOPEN] = 1; w.w[O_COMMIT] = 12; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_PROVE] = 0; w.w[O_ITER] = 0; w.w[O_INJECT] = 1; w.w[O_BURST] = 3;
  if (s.chance(1, 12)) { b.what = "no database yet"; b.damaged = true; return; }
  w.open(); life_steps(L, s.chance(1, 8) ? 0 : 3 + s.below(35)); w.close(); w.base = w.committed;
  End last = L.now(); auto data = [&](uint32_t i) { Bytes x; read_file(w.path + "/" + data_name(i), x); return x; };
  if (last.file && s.chance(1, 3)) {
    b.damaged = true; std::vector<std::pair<Map, End>> left = L.commits;
    switch (s.below(3)) {
      case 0: { size_t x = s.below(last.size + 1); Bytes d = data(last.file); write_file(w.path + "/" + data_name(last.file), d.substr(0, x)); left = intact_upto(L.commits, last.file, x); b.what = sfmt("newest file cut to %zu of %zu bytes", x, last.size); break; }
      case 1: { Bytes d = data(last.file), x(s.range(1, 300), 0); Rng g(s.seed()); g.fill(&x[0], x.size()); write_file(w.path + "/" + data_name(last.file), d + x); b.what = sfmt("%zu stray bytes", x.size()); break; }
      default: { // new files without a commit
        uint32_t n = s.range(1, 3); for (uint32_t i = 1; i <= n; i++) { Bytes x(s.below(200), 0); if (x.size()) { Rng g(s.seed()); g.fill(&x[0], x.size()); } write_file(w.path + "/" + data_name(last.file + i), x); } b.what = sfmt("%u further files without a commit", n); }
    }
    L.commits = left; set_hist(w, left); w.base = w.committed = left.empty() ? Map() : left.back().first;
  }
  b.start = db_files(w.path);
  c.logf("%zu commits, %zu files%s%s", L.commits.size(), b.start.size(), b.damaged ? "; " : "", b.what.c_str());
}
// Data files without content hold no commit; opening may drop and create them.
static Files filled(Files f) { for (auto i = f.begin(); i != f.end();) if (is_data_name(i->first) && i->second.empty()) i = f.erase(i); else ++i; return f; }
// One attempt. Returns 1 opened, 0 refused.
static int attempt(Ctx &c, Bench &b, bool limit, unsigned lim) {
  World &w = b.L.w; int e;
  Files before = db_files(w.path); bool had = exists(w.path);
  int fd0 = lib_fds(), mp0 = lib_maps();
  rlimit old{}; if (limit) { F.on = false; int d = dup(0); close(d); getrlimit(RLIMIT_NOFILE, &old); rlimit r = old; r.rlim_cur = d + lim; setrlimit(RLIMIT_NOFILE, &r); }
  w.db = api::open(w.path, &e);
  F.on = false; if (limit) setrlimit(RLIMIT_NOFILE, &old);
  std::string how = limit ? sfmt("with %u file handles left", lim) : F.fired ? sfmt("(%s: %s)", F.what, fault_err().c_str()) : "";
  c.logf("open %s: %s", how.c_str(), w.db ? "opened" : err_name(e));
  if (!limit && !F.fired) REQUIRE(w.db, "open fails with %s though nothing is wrong", err_name(e));
  if (!w.db) {
    REQUIRE(e == URKEL_EBADOPEN, "open %s fails with %s instead of EBADOPEN", how.c_str(), err_name(e));
    REQUIRE(lib_fds() == fd0 && lib_maps() == mp0, "open %s fails and keeps %d descriptors and %d mappings", how.c_str(), lib_fds() - fd0, lib_maps() - mp0);
  }
  if (had && !b.L.commits.empty() && !b.damaged) { std::string d = files_diff(filled(before), filled(db_files(w.path))); REQUIRE(d.empty(), "open %s (%s) changed the files: %s", how.c_str(), w.db ? "succeeds" : "fails", d.c_str()); }
  if (w.db) {
    H32 g = api::root(w.db), r = ref_root(w.base);
    if (g != r) { size_t at = 0; for (size_t i = 0; i < b.L.commits.size(); i++) if (ref_root(b.L.commits[i].first) == g) at = i + 1; fail("open %s succeeds and shows %s instead of commit %zu", how.c_str(), at ? sfmt("commit %zu", at).c_str() : g == H32{} ? "an empty database" : "an unknown root", b.L.commits.size()); }
    w.aspects = A_ALL; w.full_db(A_ALL, ("opened " + how).c_str(), w.hist.size() < 8);
    return 1;
  }
  return 0;
}
static void clean(Ctx &c, Bench &b, const char *when) {
  World &w = b.L.w; int e; F.on = false;
  w.db = api::open(w.path, &e);
  REQUIRE(w.db, "%s, with nothing wrong any more: open fails with %s", when, err_name(e));
  H32 g = api::root(w.db), r = ref_root(w.base);
  if (g != r) { size_t at = 0; for (size_t i = 0; i < b.L.commits.size(); i++) if (ref_root(b.L.commits[i].first) == g) at = i + 1; fail("%s, the database opens at %s instead of commit %zu", when, at ? sfmt("commit %zu", at).c_str() : g == H32{} ? "nothing" : "an unknown root", b.L.commits.size()); }
  w.aspects = A_ALL; w.full_db(A_ALL, when);
}

static void faults_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2); sys_policy = policy; F.on = false;
    Bench b(c); prepare(c, b); World &w = b.L.w; unsigned refused = 0, survived = 0;
    for (size_t i = 0, n = 1 + s.below(5); i < n; i++) {
      Span sp(s);
      bool limit = s.chance(1, 8); unsigned k = s.below(6); if (!limit) arm(c, b.start);
      if (!limit) c.logf("fault: %s: %s", spec().c_str(), fault_err().c_str());
      int ok = attempt(c, b, limit, k);
      if (limit ? !ok : F.fired) { if (ok) survived++; else refused++; c.label(limit ? "out of file handles" : std::string(ok ? "survived: " : "refused: ") + Bytes(F.what).substr(0, Bytes(F.what).find(' '))); }
      if (ok && s.chance(1, 3)) { urkel_tx_t *t = api::tx_create(w.db); REQUIRE(t, "no transaction"); w.txs.push_back({t, w.base, false}); for (int j = 0; j < 3; j++) w.do_insert(w.txs[0], w.some_key(w.base, false), gen_value(s)); uint64_t nc = w.n.commits; w.do_commit(0); if (w.n.commits != nc) b.L.commits.push_back({w.committed, End{0, 0}}); }
      if (ok) { w.close(); if (!limit && !F.fired) b.damaged = false; }
      if (!ok && s.chance(1, 4)) { clean(c, b, "after a refused open"); w.close(); b.damaged = false; }
    }
    clean(c, b, "at the end");
    { urkel_tx_t *t = api::tx_create(w.db); REQUIRE(t, "no transaction"); w.txs.push_back({t, w.base, false}); w.do_insert(w.txs[0], w.keys[0], gen_value(s)); w.do_commit(0); }
    w.reopen(); w.full_db(A_ALL, "at the end, after another commit", false); w.close();
    c.st.sub += refused + survived; c.nontrivial = refused + survived >= 1 && b.L.commits.size() >= 1;
  });
}
// The same database, every call of opening it failing in turn.
static void each_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2); sys_policy = policy; F.on = false;
    Bench b(c); prepare(c, b); World &w = b.L.w; unsigned hits = 0; bool dam = b.damaged, had = exists(w.path);
    int err = s.pickl({EMFILE, EIO, EACCES, EINTR, ENOMEM, 0}); int64_t left = s.chance(1, 2) ? 1 : err == EINTR || err == 0 ? 4 : -1; uint64_t arg = s.seed();
    c.logf("every call failing with %s, %lld times", err ? strerror(err) : "short or interrupted", (long long)left);
    for (int64_t k = 0; k < 200; k++) {
      F.mode = 0; F.k = k; F.n = F.fired = 0; F.left = left; F.err = err; F.arg = arg + k; F.what[0] = 0; F.on = true;
      int ok = attempt(c, b, false, 0); bool fired = F.fired;
      if (fired) { hits++; c.st.sub++; c.label(std::string(ok ? "survived: " : "refused: ") + Bytes(F.what).substr(0, Bytes(F.what).find(' '))); }
      if (ok) w.close();
      clean(c, b, sfmt("after opening with call %lld (%s) failing", (long long)k, F.what).c_str()); w.close();
      if (!fired) break;
      // back to the start
      b.damaged = dam;
      for (auto &f : db_files(w.path)) if (!b.start.count(f.first)) unlink((w.path + "/" + f.first).c_str());
      for (auto &f : b.start) { Bytes now; if (!read_file(w.path + "/" + f.first, now) || now != f.second) write_file(w.path + "/" + f.first, f.second); }
      if (!had) remove_dir(w.path);
    }
    c.nontrivial = hits >= 5 && b.L.commits.size() >= 1;
  });
}
const Prop the_prop = {"C13", "faults: a database with at least one commit and at least one open that met an error; each: at least five calls of one open failed in turn on a database with a commit",
  {{"faults", faults_stage, 30000, 1200000, 8}, {"each", each_stage, 4000, 180000, 8}}};
