#include "life.hh"

namespace {
// The most a commit may add to the files: what it changed, the way there, its seal and padding.
struct Bound {
  typedef Map::const_iterator It; typedef std::pair<H32, bool> K;
  static size_t internal(unsigned bits) { return 1 + (bits ? 1 + (bits + 7) / 8 : 0) + 2 * (7 + 32); }
  // Range [a, b) of records below depth, touched keys [x, y) that lead here.
  size_t rec(It a, It b, unsigned depth, std::vector<K> ks, bool moved) {
    if (a == b) return 0;
    It l = std::prev(b);
    if (a == l) { for (auto &k : ks) if (k.first == a->first) return 40 + a->second.size(); return 0; }
    unsigned e = depth; while (key_bit(a->first, e) == key_bit(l->first, e)) e++;
    size_t n = internal(e - depth);
    if (ks.empty()) return moved ? n : 0; // next to the way: takes another place when a branch comes or goes
    std::vector<K> to[2]; bool mv = false;
    for (auto &k : ks) { mv |= k.second; bool on = true; for (unsigned i = depth; i < e && on; i++) on = key_bit(k.first, i) == key_bit(a->first, i); if (on) to[key_bit(k.first, e)].push_back(k); }
    if (to[0].empty() && to[1].empty()) return n;
    It m = a; while (!key_bit(m->first, e)) ++m;
    return n + rec(a, m, e + 1, to[0], mv) + rec(m, b, e + 1, to[1], mv);
  }
  static size_t of(const Map &m, const Touched &touched) { Bound b; return b.rec(m.begin(), m.end(), 0, std::vector<K>(touched.begin(), touched.end()), false) + 3 * 38; }
};

size_t total(const Files &f) { size_t n = 0; for (auto &x : f) if (is_data_name(x.first)) n += x.second.size(); return n; }
// What stood there still does.
void kept(const Files &was, const Files &is, const char *when, bool all = false) {
  for (auto &x : was) {
    if (!is_data_name(x.first) && x.first != "meta") continue;
    auto it = is.find(x.first);
    if (it == is.end()) { if (x.second.empty()) continue; fail("%s: %s (%zu bytes) is gone", when, x.first.c_str(), x.second.size()); }
    REQUIRE(it->second.size() >= x.second.size(), "%s: %s is cut from %zu to %zu bytes", when, x.first.c_str(), x.second.size(), it->second.size());
    if (it->second.compare(0, x.second.size(), x.second)) { size_t i = 0; while (it->second[i] == x.second[i]) i++; fail("%s: stored data is changed at %zu of the %zu bytes of %s", when, i, x.second.size(), x.first.c_str()); }
    if (all || x.first == "meta") REQUIRE(it->second.size() == x.second.size(), "%s: %s grows from %zu to %zu bytes", when, x.first.c_str(), x.second.size(), it->second.size());
  }
  if (all) for (auto &x : is) if (is_data_name(x.first) && !was.count(x.first)) REQUIRE(x.second.empty(), "%s: a new file %s of %zu bytes", when, x.first.c_str(), x.second.size());
}

struct { bool on; uint64_t k, n; bool part; uint64_t arg; unsigned fired; } F;
Action policy(const Call &c) {
  if (!F.on || (c.sc != S_WRITE && c.sc != S_PWRITE) || c.len == 0) return {Action::PASS, 0, 0};
  if (F.n++ < F.k) return {Action::PASS, 0, 0};
  if (F.n == F.k + 1 && F.part && c.len > 1) { F.fired++; return {Action::PARTIAL, 0, (size_t)(F.arg % (c.len - 1)) + 1}; }
  F.fired++; return {Action::ERR, ENOSPC, 0};
}

struct Watch {
  World &w; Files last; size_t junk = 0; bool failed = false; uint64_t nc = 0, commits = 0; double used = 0; size_t shared = 0;
  explicit Watch(World &w_) : w(w_) { last = db_files(w.path); nc = w.n.commits; }
  void see(const char *what) {
    Files now = db_files(w.path);
    // What a failing commit has left may be cut off later: the committed part is what must stay.
    if (failed) { failed = false; kept(last, now, "after a commit that failed"); junk = total(now) - total(last); return; }
    if (w.n.commits == nc) { kept(last, now, sfmt("after '%s'", what).c_str(), !junk); if (junk) REQUIRE(total(now) <= total(last) + junk, "after '%s': the files grow from %zu to %zu bytes", what, total(last) + junk, total(now)); else last = now; return; }
    nc = w.n.commits; commits++;
    kept(last, now, "after a commit");
    {
      size_t g = total(now) - total(last), b = Bound::of(w.committed, w.touched);
      w.c.logf("   the commit adds %zu bytes for %zu changed keys, at most %zu are due", g, w.touched.size(), b);
      REQUIRE(g <= b + junk, "a commit that changes %zu of %zu records adds %zu bytes to the files, at most %zu are due", w.touched.size(), w.committed.size(), g, b + junk);
      if (w.touched.size() * 2 < w.committed.size()) shared++;
    }
    junk = 0; last = now;
  }
};

void world_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0); w.limits(1, 2); w.keys = gen_keys(s, s.chance(1, 6) ? 200 : 30); w.max_hist = 1000;
    w.w[O_COMMIT] = 14; w.w[O_REOPEN] = 2; w.w[O_FULL] = 0; w.w[O_TX_AT] = 3; w.w[O_INJECT] = 2;
    sys_policy = policy; F.on = false; w.open(); Watch x(w);
    w.after = [&](const char *what) { x.see(what); };
    size_t n = 15 + s.below(c.thorough ? 100 : 50); unsigned failed = 0;
    for (size_t i = 0; i < n; i++) {
      if (!s.chance(1, 12) || w.txs.empty()) { w.step(); continue; }
      Span sp(s); size_t t = s.below(w.txs.size()); // a commit that fails, as a rule
      F.k = s.below(3); F.n = F.fired = 0; F.part = s.chance(1, 2); F.arg = s.seed(); F.on = true;
      api::R r = api::tx_commit(w.txs[t].tx); F.on = false;
      if (r.ok && !F.fired) { w.txs[t].dirty = false; w.touched = w.txs[t].touched; w.txs[t].touched.clear(); w.did_commit(w.txs[t].m); x.see("commit"); continue; }
      if (r.ok) throw Skip{"a commit that could not write succeeds"};
      c.logf("tx%zu commit fails (%s)", t, err_name(r.err)); failed++; x.failed = true;
      api::tx_destroy(w.txs[t].tx); w.txs.erase(w.txs.begin() + t); x.see("failing commit");
    }
    w.after = nullptr; w.close(); x.see("close");
    c.label("commits measured", x.commits); c.label("commits that failed", failed); c.label("commits that change less than half", x.shared); c.st.sub += x.commits;
    c.nontrivial = x.commits >= 2 && x.shared >= 1;
  });
}

// A few changes in a large tree.
void large_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, 0); w.keys.clear(); size_t n = s.range(500, c.thorough ? 6000 : 2500); uint64_t sd = s.seed();
    for (size_t i = 0; i < n; i++) w.keys.push_back(rnd_key(sd + i));
    w.open(); Watch x(w); w.after = [&](const char *what) { x.see(what); };
    w.tx_open(); { urkel_tx_t *t = w.txs[0].tx; for (size_t i = 0; i < n; i++) { Bytes v(1 + i % 40, (char)i); api::R r = api::tx_insert(t, w.keys[i], v); if (!r.ok) throw Skip{"insert"}; w.txs[0].m[w.keys[i]] = v; w.txs[0].touched[w.keys[i]] = true; } }
    w.do_commit(0); x.see("commit"); if (s.chance(1, 2)) { w.reopen(); x.see("reopen"); w.tx_open(); }
    for (unsigned k = 0, q = s.range(2, 8); k < q; k++) {
      Span sp(s); if (w.txs.empty()) w.tx_open();
      if (s.chance(1, 4)) { H32 p = w.keys[s.below(n)]; api::RV v = api::tx_prove(w.txs[0].tx, p); (void)v; } if (s.chance(1, 6)) w.chk_iter(0, "iterate", api::iter_create(w.txs[0].tx), w.txs[0].m);
      for (size_t i = 0, z = s.small(12); i < z; i++) { Span q2(s); if (s.chance(1, 2)) w.do_remove(w.txs[0], w.keys[s.below(n)]); else w.do_insert(w.txs[0], s.chance(1, 3) ? rnd_key(s.seed()) : w.keys[s.below(n)], gen_value(s)); }
      w.do_commit(0); x.see("commit"); if (s.chance(1, 4)) { w.reopen(); x.see("reopen"); }
    }
    w.after = nullptr; w.close(); x.see("close"); c.nontrivial = x.shared >= 1; c.st.sub += x.commits;
    c.label("commits measured", x.commits);
  });
}

// Recovery takes away only what follows the last intact commit, and does so once.
void recover_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; Life L(c, 0); World &w = L.w; w.limits(2, 3); w.keys = gen_keys(s, 16); w.max_hist = 100000;
    w.w[O_COMMIT] = 16; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_PROVE] = 1; w.w[O_ITER] = 1; w.w[O_BURST] = 3; w.open();
    unsigned fell = 0;
    for (unsigned r = 0, rn = s.range(1, 3); r < rn; r++) {
      Span sp(s); life_steps(L, 4 + s.below(30)); w.close(); End last = L.now(); if (!last.file || !last.size) { w.base = w.committed; w.open(); continue; }
      std::string p = w.path + "/" + data_name(last.file); Bytes b; read_file(p, b); size_t cut = s.chance(1, 3) ? b.size() : s.below(b.size() + 1); Bytes junk(s.chance(1, 2) ? 0 : s.range(1, 400), 'j'); Bytes d = b.substr(0, cut) + junk; write_file(p, d);
      auto left = intact_upto(L.commits, last.file, cut); if (left.size() < L.commits.size() || junk.size()) fell++;
      c.logf("the newest file is cut from %zu to %zu bytes, %zu stray bytes; %zu of %zu commits left", b.size(), cut, junk.size(), left.size(), L.commits.size());
      Files want; if (!left.empty()) { End e = left.back().second; for (auto &f : db_files(w.path)) { uint32_t i = is_data_name(f.first) ? strtoul(f.first.c_str(), 0, 10) : 0; if (i < e.file) want[f.first] = f.second; else if (i == e.file) want[f.first] = f.second.substr(0, e.size); } }
      set_hist(w, left); w.committed = w.base = left.empty() ? Map() : left.back().first; L.commits = left;
      w.open(); Files f1 = db_files(w.path); kept(want, f1, "after recovery");
      if (s.chance(1, 2)) { w.close(); Files f2 = db_files(w.path); kept(f1, f2, "closing after recovery", true); w.open(); kept(f2, db_files(w.path), "opening again after recovery", true); kept(db_files(w.path), f2, "opening again after recovery", true); }
    }
    w.close(); c.nontrivial = fell >= 1 && !L.commits.empty();
  });
}
} // namespace
const Prop the_prop = {"C27", "world: at least two commits measured, one of which changes less than half of the records; large: a commit that changes a few of 500-6000 records; recover: the newest file is damaged and a commit is left",
  {{"world", world_stage, 20000, 1500000, 8}, {"large", large_stage, 120, 6000, 8}, {"recover", recover_stage, 10000, 600000, 8}}};
