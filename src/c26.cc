#include "life.hh"
#include "format.hh"

namespace {
// The files against the list of commits (roots with their records, oldest first).
void compare(const Files &f, const std::vector<Map> &commits, const char *when, bool all) {
  try {
    fmt::Reader r(f);
    REQUIRE(r.seals.size() == commits.size(), "%s: the files hold %zu commits instead of %zu", when, r.seals.size(), commits.size());
    size_t n = commits.size();
    for (size_t i = 0; i < n; i++) {
      if (!all && i > 1 && i + 1 < n) continue;
      H32 root; Map m = r.records(r.seals[i], &root); const Map &e = commits[n - 1 - i];
      REQUIRE(m == e, "%s: commit %zu of %zu reads as %zu records instead of %zu, or others", when, n - i, n, m.size(), e.size());
      REQUIRE(root == ref_root(e), "%s: commit %zu has another root", when, n - i);
    }
  } catch (fmt::Bad &b) { fail("%s: an independent reader refuses the files: %s", when, b.why.c_str()); }
}

void written(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2);
    World w(c, 0); w.keys = gen_keys(s, s.chance(1, 6) ? 200 : 20); w.max_hist = 100000; w.w[O_COMMIT] = 14; w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_PROVE] = 1; w.w[O_ITER] = 1; w.w[O_REOPEN] = 3;
    std::vector<Map> commits; uint64_t nc = 0, checked = 0; size_t max_file = urkel_verif_max_file_size;
    w.after = [&](const char *) {
      if (w.n.commits == nc) return;
      nc = w.n.commits; commits.push_back(w.committed);
      if (commits.size() > 6 && !s.chance(1, 4)) return;
      compare(db_files(w.path), commits, "after a commit", false); checked++; };
    w.open(A_ALL); for (size_t i = 0, n = 10 + s.below(c.thorough ? 150 : 70); i < n; i++) w.step();
    w.after = nullptr; w.close();
    Files f = db_files(w.path); if (!commits.empty()) compare(f, commits, "at the end", true);
    for (auto &x : f) if (is_data_name(x.first) && limits_hooked()) REQUIRE(x.second.size() <= max_file, "data file %s has %zu bytes, the limit is %zu", x.first.c_str(), x.second.size(), max_file);
    size_t nf = f.size(); c.label("commits read", commits.size()); c.label(nf > 3 ? "several data files" : "one or two data files"); c.nontrivial = commits.size() >= 2 && checked;
    c.st.sub += checked;
  });
}

// Files of an independent writer.
void read_back(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2);
    fmt::Writer::Opt o; o.share = s.chance(2, 3); o.order = s.below(3); o.junk = s.chance(1, 2) ? 0 : 1 + s.below(7); o.reuse_values = s.chance(1, 3); o.max = s.chance(1, 2) ? 0 : 1100 + s.below(6000);
    Bytes key(32, 0); { Rng g(s.seed()); g.fill(&key[0], 32); }
    fmt::Writer wr(key, o, s.seed()); World w(c, A_ALL); w.keys = gen_keys(s, s.chance(1, 6) ? 200 : 20); w.max_hist = 100000;
    std::vector<Map> commits; Map m; size_t n = 1 + s.below(s.chance(1, 5) ? 30 : 8);
    for (size_t i = 0; i < n; i++) { Span sp(s); gen_changes(s, w.keys, m, s.chance(1, 4) ? 60 : 12); if (s.chance(1, 15)) m.clear(); if (i && s.chance(1, 10)) m = commits[s.below(commits.size())]; H32 r = wr.commit(m); if (r != ref_root(m)) { fprintf(stderr, "harness: writer\n"); _exit(2); } commits.push_back(m); }
    size_t junk = s.chance(1, 3) ? s.below(400) : 0; if (junk) { Bytes j(junk, 0); Rng g(s.seed()); g.fill(&j[0], junk); wr.cur += j; }
    wr.save(w.path);
    c.logf("%zu commits in %u files by an independent writer: %s, order %u, junk %u, %s%s", n, wr.index, o.share ? "shared subtrees" : "full trees", o.order, o.junk, o.reuse_values ? "shared values, " : "", junk ? "stray bytes at the end" : "");
    for (auto &x : commits) { H32 r = ref_root(x); if (!w.hist.count(r)) { w.hist[r] = x; w.order.push_back(r); } }
    w.base = w.committed = commits.back();
    int e; w.db = api::open(w.path, &e); REQUIRE(w.db, "files of the established format do not open: %s", err_name(e));
    H32 g = api::root(w.db); REQUIRE(g == ref_root(w.base), "files of the established format open at root %s instead of %s", shx(g).c_str(), shx(ref_root(w.base)).c_str());
    bool late = s.chance(1, 2);
    if (!late) w.full_db(A_ALL, "files of an independent writer");
    // go on with them
    w.w[O_FULL] = 0; w.w[O_BAD] = 0; w.w[O_COMMIT] = 12; w.w[O_TX_AT] = 4; uint64_t nc = 0;
    w.after = [&](const char *) { if (w.n.commits != nc) { nc = w.n.commits; commits.push_back(w.committed); } };
    for (size_t i = 0, k = s.below(c.thorough ? 80 : 40); i < k; i++) w.step();
    w.after = nullptr; w.full_db(A_ALL, "files of an independent writer, continued"); w.reopen(); w.full_db(A_ALL, "files of an independent writer, reopened"); w.close();
    compare(db_files(w.path), commits, "files of an independent writer, continued", true);
    c.label("commits written", n); c.label("continued with commits", nc); c.nontrivial = n >= 2 && !commits.back().empty();
  });
}
} // namespace
extern const Prop the_prop = {"C26", "written: at least two commits, read back independently; read: at least two commits by the independent writer and a final record set that is not empty", {
  {"written", written, 40000, 1500000, 8},
  {"read", read_back, 12000, 400000, 8},
}};
