#include "life.hh"

static void body(Ctx &c, bool exhaustive) {
  Src &s = c.s; gen_limits(c, 1, 2);
  Life L(c, A_HIST | A_REOPEN); World &w = L.w;
  w.keys = gen_keys(s, 16); w.max_hist = 100000;
  w.w[O_REOPEN] = 1; w.w[O_COMMIT] = 16; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_PROVE] = 1; w.w[O_ITER] = 1; w.w[O_REMOVE_ALL] = 1; w.w[O_INJECT] = 1; w.w[O_BURST] = 3;
  w.open();
  unsigned rounds = exhaustive ? 1 : s.range(1, 3), fell = 0;
  for (unsigned r = 0; r < rounds; r++) {
    Span sp(s);
    life_steps(L, 4 + s.below(exhaustive ? 25 : 40));
    // leave buffered changes behind now and then
    w.close();
    Files before = db_files(w.path); End last = L.now();
    auto expect = [&](const std::vector<std::pair<Map, End>> &left, const char *what) {
      set_hist(w, left); w.committed = w.base = left.empty() ? Map() : left.back().first;
      w.open(A_REOPEN); H32 g = api::root(w.db), e = ref_root(w.base);
      if (g != e) { size_t at = 0; for (size_t i = 0; i < L.commits.size(); i++) if (ref_root(L.commits[i].first) == g) at = i + 1; w.chk(A_REOPEN, false, "%s: the database opens at commit %zu instead of %zu (of %zu)", what, at, left.size(), L.commits.size()); }
    };
    auto intact_upto = [&](uint32_t file, size_t size) { return ::intact_upto(L.commits, file, size); };
    if (exhaustive) {
      // every cut of the newest file (or a spread of them, when it is long)
      const Bytes whole = before[data_name(last.file)]; if (last.file == 0) break;
      std::vector<size_t> cuts; for (size_t x = 0; x <= whole.size(); x++) cuts.push_back(x);
      size_t cap = c.thorough ? 2000 : 250; std::vector<size_t> must; for (auto &x : L.commits) if (x.second.file == last.file) for (int d = -40; d <= 2; d++) { long y = (long)x.second.size + d; if (y >= 0 && y <= (long)whole.size()) must.push_back(y); }
      if (cuts.size() > cap) { std::vector<size_t> k; for (size_t i = 0; i < cap / 2; i++) k.push_back(cuts[s.below(cuts.size())]); uint64_t q = s.seed(); for (size_t i = 0; i < cap / 2 && must.size(); i++) k.push_back(must[mix64(q + i) % must.size()]); cuts = k; }
      for (size_t x : cuts) {
        write_file(w.path + "/" + data_name(last.file), whole.substr(0, x));
        auto left = intact_upto(last.file, x); if (left.size() < L.commits.size()) fell++;
        c.st.sub++; c.label("cuts");
        expect(left, sfmt("newest file cut to %zu of %zu bytes", x, whole.size()).c_str());
        const H32 &k = w.keys[x % w.keys.size()];
        w.chk_get(A_REOPEN, "after a cut", api::get(w.db, k), w.base, k);
        if (x % 7 == 0 && w.order.size()) { const H32 &h = w.order[x % w.order.size()]; w.chk_get(A_HIST, "an older root after a cut", api::get(w.db, k, &h), w.hist[h], k); }
        if (x % 5 == 0) { api::R q = api::insert(w.db, k, mk_value(x % 60, x)); w.chk(A_REOPEN, q.ok, "insert after a cut: %s", err_name(q.err)); Map m = w.base; m[k] = mk_value(x % 60, x); api::close(w.db); w.db = nullptr; int e; w.db = api::open(w.path, &e); w.chk(A_REOPEN, w.db, "reopening after a cut and a commit: %s", err_name(e)); w.chk(A_REOPEN, api::root(w.db) == ref_root(m), "cut to %zu bytes, then a commit: it is not there after reopening", x); if (left.size()) { H32 h = ref_root(left.back().first); w.chk_get(A_HIST, "the recovered root after another commit", api::get(w.db, k, &h), left.back().first, k); } }
        api::close(w.db); w.db = nullptr;
        // put everything back
        for (auto &f : db_files(w.path)) if (is_data_name(f.first) && !before.count(f.first)) unlink((w.path + "/" + f.first).c_str());
        for (auto &f : before) if (is_data_name(f.first)) { Bytes now; if (!read_file(w.path + "/" + f.first, now) || now != f.second) write_file(w.path + "/" + f.first, f.second); }
      }
      c.label("commits fallen back over", fell);
      c.nontrivial = L.commits.size() >= 3 && fell >= 3;
      return;
    }
    // one damage, then life goes on
    std::vector<std::pair<Map, End>> left = L.commits; Bytes what;
    auto data = [&](uint32_t i) { return before.count(data_name(i)) ? before[data_name(i)] : Bytes(); };
    auto put = [&](uint32_t i, const Bytes &b) { write_file(w.path + "/" + data_name(i), b); };
    unsigned kind = last.file == 0 ? 99 : s.below(6);
    switch (kind) {
      case 0: { // cut (perhaps with whole files gone)
        size_t x = s.chance(1, 3) && last.size > 0 ? last.size - std::min<size_t>(last.size, s.below(100)) : s.below(last.size + 1);
        put(last.file, data(last.file).substr(0, x)); left = intact_upto(last.file, x); what = sfmt("newest file cut to %zu of %zu bytes", x, last.size); break; }
      case 1: { // stray bytes
        Bytes b = data(last.file); size_t n = s.chance(1, 2) ? s.range(1, 200) : s.range(1, 5000); Bytes x(n, 0); unsigned q = s.below(3); if (q == 0) { Rng g(s.seed()); g.fill(&x[0], n); } else if (q == 1) x.assign(n, 0xff);
        // bytes of a commit that never got its seal
        put(last.file, b + x); what = sfmt("%zu stray bytes", n); break; }
      case 2: { // newest seals damaged
        size_t n = s.range(1, std::min<size_t>(4, L.commits.size()) + (s.chance(1, 6) ? 30 : 0)); if (n > L.commits.size()) n = L.commits.size();
        std::map<uint32_t, Bytes> ed;
        for (size_t i = 0; i < n; i++) { End e = left.back().second; left.pop_back(); if (!ed.count(e.file)) ed[e.file] = data(e.file); ed[e.file][e.size - 38 + s.below(38)] ^= 1 + s.below(255); }
        for (auto &x : ed) put(x.first, x.second); what = sfmt("%zu newest seals damaged", n); break; }
      case 3: { // newest files missing
        uint32_t n = s.chance(1, 2) ? 1 : s.range(1, last.file); for (uint32_t i = 0; i < n; i++) unlink((w.path + "/" + data_name(last.file - i)).c_str());
        left = intact_upto(last.file - n, (size_t)-1); what = sfmt("%u newest files of %u missing", n, last.file); 
        if (n < last.file && s.chance(1, 3)) { uint32_t f = last.file - n; size_t z = data(f).size(), x = s.below(z + 1); put(f, data(f).substr(0, x)); left = intact_upto(f, x); what += sfmt(", the next cut to %zu of %zu", x, z); }
        break; }
      case 4: { api::R q = api::corrupt(w.path); if (q.ok) { left = intact_upto(last.file, last.size - 1); what = "urkel__corrupt"; } else what = "urkel__corrupt (refused)"; break; }
      case 5: { // cut and stray bytes
        size_t x = s.below(last.size + 1), n = s.range(1, 300); Bytes g(n, 0); if (s.chance(1, 2)) { Rng q(s.seed()); q.fill(&g[0], n); }
        put(last.file, data(last.file).substr(0, x) + g); left = intact_upto(last.file, x); 
        // zeros may complete the zero padding, never a seal
        what = sfmt("newest file cut to %zu of %zu bytes, %zu others there", x, last.size, n); break; }
      default: what = "nothing";
    }
    if (left.size() < L.commits.size()) fell++;
    c.logf("DAMAGE: %s; %zu of %zu commits left", what.c_str(), left.size(), L.commits.size()); c.label("damage: " + what.substr(0, what.find_first_of("0123456789") == Bytes::npos ? 30 : what.find_first_of("0123456789")) + (kind == 1 ? "stray bytes" : kind == 2 ? "seals" : kind == 3 ? "missing files" : ""));
    expect(left, what.c_str());
    L.commits = left;
    w.full_db(A_REOPEN | A_HIST, "after the damage");
    if (s.chance(1, 3)) { w.reopen(); w.full_db(A_REOPEN, "after the damage, reopened", false); }
    c.label("commits fallen back over", fell);
  }
  // and on
  for (size_t i = 0, n = s.below(15); i < n; i++) w.step();
  w.reopen(); w.full_db(A_REOPEN | A_HIST, "at the end");
  c.nontrivial = L.commits.size() >= 2 && fell >= 1;
  w.close();
}
static void damage_stage(Ctx &c) { Limits lim; judged(c, [&] { body(c, false); }); }
static void cuts_stage(Ctx &c) { Limits lim; judged(c, [&] { body(c, true); }); }
const Prop the_prop = {"C11", "damage: at least two commits left and one damage that loses a commit; cuts: at least three commits, cuts over the whole newest file",
  {{"damage", damage_stage, 14000, 600000, 8}, {"cuts", cuts_stage, 2500, 75000, 8}}};
