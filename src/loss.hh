// Power loss: the disk holds what was synced and any part of what was written
// after that. SYNCED: the library built to sync every commit (URKEL_FSYNC).
#pragma once
#include "world.hh"
#include "util.hh"
#include <sys/syscall.h>

struct Attempt { Map m; H32 root; bool done; std::map<std::string, size_t> lens; };
struct Shot { Files f; std::map<std::string, size_t> synced; size_t done, tried; Bytes where; };
static std::string dbdir; static std::map<std::string, size_t> synced; static std::set<std::string> direct;
static std::vector<Attempt> att; static std::vector<Shot> shots; static std::set<uint64_t> points; static uint64_t ncalls;
static int sync_fault; static unsigned sync_failed, syncs;

static bool in_db(const std::string &f) { return f == "meta" || is_data_name(f); }
static size_t fsize(const std::string &f) { struct stat st; return stat((dbdir + "/" + f).c_str(), &st) ? 0 : st.st_size; }
static size_t last_done() { size_t d = 0; for (size_t i = 0; i < att.size(); i++) if (att[i].done) d = i; return d; }
static void shoot(const Call &c) {
  Shot s; s.f = db_files(dbdir); s.done = last_done(); s.tried = att.size() - 1; s.where = sfmt("%s %s", sc_name[c.sc], c.file);
  for (auto &x : s.f) s.synced[x.first] = std::min(synced.count(x.first) ? synced[x.first] : 0, x.second.size());
  shots.push_back(s);
}
static Action policy(const Call &c) {
  if (c.sc == S_FSYNC) { syncs++; if (sync_fault && in_db(c.file)) { sync_fault--; sync_failed++; return {Action::ERR, EIO, 0}; } }
  return {Action::PASS, 0, 0};
}
static void seen(const Call &c, long ret) {
  std::string f = c.file; bool point = false;
  switch (c.sc) {
    case S_OPEN: if (ret < 0 || !in_db(f)) break;
      if (c.flags & (O_SYNC | O_DSYNC)) direct.insert(f);
      if (c.flags & O_TRUNC) synced[f] = 0;
      point = c.flags & O_CREAT; break;
    case S_FSYNC: if (ret == 0 && in_db(f)) synced[f] = fsize(f); point = true; break;
    case S_WRITE: case S_PWRITE: if (in_db(f) && direct.count(f) && ret > 0) synced[f] = fsize(f); point = true; break;
    case S_FTRUNCATE: case S_TRUNCATE: if (in_db(f)) synced[f] = std::min(synced[f], fsize(f)); point = true; break;
    case S_UNLINK: if (ret == 0) { synced.erase(f); direct.erase(f); } point = true; break;
    default: break;
  }
  if (point && points.count(ncalls++)) shoot(c);
}
static void done_commit() { Attempt &a = att.back(); a.done = true; a.lens.clear(); for (auto &f : db_files(dbdir)) if (is_data_name(f.first)) a.lens[f.first] = f.second.size(); }

// What a power loss at this moment leaves, and what is found then.
static void lose(Ctx &c, Shot &sh, const std::string &path, uint64_t rnd) {
  Src &s = c.s; Span sp(s); Files img; size_t lost = 0, files = 0; bool gap = false; std::string how;
  unsigned mode = s.below(4);
  for (auto &x : sh.f) {
    if (!in_db(x.first)) continue;
    size_t lo = sh.synced[x.first], hi = x.second.size(), L = hi;
    if (x.first == "meta" && !SYNCED) lo = hi;
    if (is_data_name(x.first)) files++;
    if (lo < hi) switch (mode) {
      case 0: L = lo; break;                               // everything since the last sync
      case 1: L = s.chance(1, 2) ? lo : hi; break;         // some files
      case 2: L = lo + s.below(hi - lo + 1); break;
      case 3: L = hi - std::min<size_t>(hi - lo, 1 + s.small(60)); break;
    }
    if (L < hi) { lost += hi - L; how += sfmt(" %s %zu of %zu (synced %zu)", x.first.c_str(), L, hi, lo); }
    img[x.first] = x.second.substr(0, L);
  }
  size_t lb = 0;
  for (size_t i = 0; i <= sh.tried; i++) if (att[i].done && i <= sh.done) {
    bool all = true; for (auto &l : att[i].lens) { auto it = img.find(l.first); if (it == img.end() || it->second.size() < l.second) all = false; }
    if (all) lb = i;
  }
  if (SYNCED) lb = sh.done;
  c.st.sub++; c.label("power losses"); if (lost) c.label("losing bytes"); if (lost && files > 1) c.label("losing bytes of one of several files"); if (lb < sh.done) c.label("losing commits that were not synced"); (void)gap;
  c.logf("power lost after %s: %zu commits reported, %zu tried;%s", sh.where.c_str(), sh.done, sh.tried, how.empty() ? " nothing lost" : how.c_str());
  remove_dir(path); mkdir(path.c_str(), 0750); for (auto &f : img) write_file(path + "/" + f.first, f.second);
  int e; urkel_t *db = api::open(path, &e);
  REQUIRE(db, "the database cannot be opened after the power loss: %s", err_name(e));
  struct G { urkel_t *&d; ~G() { if (d) api::close(d); } } g{db};
  H32 r = api::root(db); size_t at = (size_t)-1;
  for (size_t i = lb; i <= sh.tried; i++) if (att[i].root == r) at = i;
  if (at == (size_t)-1) { for (size_t i = 0; i < lb; i++) if (att[i].root == r) fail("after the power loss the database is at commit %zu, though commit %zu is on disk", i, lb); fail("after the power loss the database is at root %s, which is no commit that was tried", shx(r).c_str()); }
  auto look = [&](const char *what, const H32 &root, const Map &m) {
    urkel_tx_t *t = api::tx_create(db, &root, &e); REQUIRE(t, "%s: the root is refused: %s", what, err_name(e));
    std::set<H32> ks; for (auto &a : att) for (auto &kv : a.m) ks.insert(kv.first);
    for (auto &k : ks) {
      api::RV v = api::tx_get(t, k); auto it = m.find(k);
      if (it == m.end()) REQUIRE(!v.ok && v.err == URKEL_ENOTFOUND, "%s: key %s: %s instead of not found", what, kx(k).c_str(), v.ok ? "found" : err_name(v.err));
      else { REQUIRE(v.ok, "%s: key %s fails with %s", what, kx(k).c_str(), err_name(v.err)); REQUIRE(v.v == it->second, "%s: key %s has another value", what, kx(k).c_str()); }
    }
    api::tx_destroy(t);
  };
  look("after the power loss", r, att[at].m);
  for (size_t i = 0; i <= lb; i++) if (att[i].done) look(sfmt("commit %zu of %zu after the power loss", i, lb).c_str(), att[i].root, att[i].m);
  // life goes on
  Map m = att[at].m; H32 k = rnd_key(rnd); Bytes v = mk_value(rnd % 300, rnd); api::R x = api::insert(db, k, v);
  REQUIRE(x.ok, "insert after the power loss: %s", err_name(x.err)); m[k] = v;
  api::close(db); db = nullptr; db = api::open(path, &e); REQUIRE(db, "cannot be opened after a further commit: %s", err_name(e));
  REQUIRE(api::root(db) == ref_root(m), "a commit after the power loss is not there after reopening");
  look("after a further commit", ref_root(m), m); look("the recovered root after a further commit", r, att[at].m);
}

static void loss_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    struct G { ~G() { sys_policy = nullptr; sys_after = nullptr; } } g;
    Src &s = c.s; dbdir = c.dir + "/db"; synced.clear(); direct.clear(); att.clear(); shots.clear(); points.clear(); ncalls = 0; sync_fault = 0; sync_failed = syncs = 0;
    gen_limits(c);
    Keys keys = gen_keys(s, 14); size_t ops = 3 + s.below(c.thorough ? 24 : 14); bool faults = s.chance(1, 3);
    for (size_t i = 0, n = 1 + s.below(c.thorough ? 8 : 5); i < n; i++) points.insert(s.below(4 + 3 * ops));
    att.push_back({Map(), ref_root(Map()), true, {}});
    sys_policy = policy; sys_after = seen;
    int e; urkel_t *db = api::open(dbdir, &e); if (!db) throw Skip{"open"};
    urkel_tx_t *kept = nullptr;
    struct D { urkel_t *&d; urkel_tx_t *&k; ~D() { sys_policy = nullptr; sys_after = nullptr; sync_fault = 0; if (k) api::tx_destroy(k); if (d) api::close(d); } } dg{db, kept};
    Map base; bool failed = false;
    for (size_t i = 0; i < ops; i++) {
      Span sp(s); static const unsigned w[] = {10, 4, 2, 3, 2};
      sync_fault = faults && s.chance(1, 3) ? 1 + s.below(2) : 0;
      switch (s.weighted(w, 5)) {
        case 0: case 1: { // a commit, of a new transaction or a kept one
          bool keep = s.chance(1, 3); urkel_tx_t *t = kept;
          if (!t) { t = api::tx_create(db); if (!t) throw Skip{"begin"}; } else api::tx_clear(t);
          kept = t; Map m = base; Changes ch = gen_changes(s, keys, m, 12);
          for (auto &x : ch) { api::R r = x.del ? api::tx_remove(t, x.key) : api::tx_insert(t, x.key, x.v); if (!r.ok) throw Skip{"change"}; }
          att.push_back({m, ref_root(m), false, {}}); unsigned f0 = sync_failed; api::R r = api::tx_commit(t);
          c.logf("  commit %zu: %zu changes%s", att.size() - 1, ch.size(), r.ok ? "" : ", fails");
          if (r.ok) { base = m; done_commit(); failed = false; } else { if (sync_failed == f0 && !failed) throw Skip{"commit"}; failed = true; c.label("commits that could not sync"); keep = false; }
          if (!keep) { api::tx_destroy(kept); kept = nullptr; }
          break; }
        case 2: { Map m = base; Changes ch = gen_changes(s, keys, m, 1); if (ch.empty()) break; ch.resize(1); m = base; if (ch[0].del) m.erase(ch[0].key); else m[ch[0].key] = ch[0].v;
          att.push_back({m, ref_root(m), false, {}}); unsigned f0 = sync_failed; api::R r = ch[0].del ? api::remove(db, ch[0].key) : api::insert(db, ch[0].key, ch[0].v);
          c.logf("  commit %zu: one-shot%s", att.size() - 1, r.ok ? "" : ", fails");
          if (r.ok) { base = m; done_commit(); failed = false; } else { if (sync_failed == f0 && !failed) throw Skip{"one-shot"}; failed = true; c.label("commits that could not sync"); }
          break; }
        case 3: { // closed and opened again
          if (kept) { api::tx_destroy(kept); kept = nullptr; }
          api::close(db); db = nullptr; sync_fault = 0; db = api::open(dbdir, &e); if (!db) throw Skip{"open again"};
          H32 r = api::root(db); size_t at = (size_t)-1; for (size_t j = last_done(); j < att.size(); j++) if (att[j].root == r) at = j;
          if (at == (size_t)-1) throw Skip{"another root after reopening"};
          c.logf("  reopened at %zu", at); base = att[at].m; failed = false;
          // a commit that failed and is there now has no promise of being on disk
          break; }
        case 4: { size_t at = s.below(att.size()); if (!att[at].done) break; if (kept) { api::tx_destroy(kept); kept = nullptr; } api::R r = api::inject(db, att[at].root); if (!r.ok) throw Skip{"revert"}; base = att[at].m; c.logf("  reverted to %zu", at); break; }
      }
      sync_fault = 0;
    }
    points = {ncalls}; { Call z{S_CLOSE, nullptr, "the last call", -1, 0, 0}; shoot(z); }
    sys_policy = nullptr; sys_after = nullptr;
    if (kept) { api::tx_destroy(kept); kept = nullptr; } api::close(db); db = nullptr;
    c.label("syncs", syncs);
    uint64_t rnd = s.seed(); unsigned n = 0, lossy = 0;
    for (auto &sh : shots) for (unsigned j = 0; j < 3; j++) {
      bool any = false; for (auto &x : sh.f) if (is_data_name(x.first) && sh.synced[x.first] < x.second.size()) any = true;
      size_t data = 0; for (auto &x : sh.f) data += is_data_name(x.first);
      if (j && !any) break;
      if (any || data > 1) lossy++;
      lose(c, sh, c.dir + "/lost", mix64(rnd + n)); n++;
    }
    c.nontrivial = att.size() >= 4 && lossy >= 2;
  });
}
