#include "life.hh"

static void describe(Ctx &c, World &w) { size_t n = 0, mx = 0; for (auto &f : db_files(w.path)) if (is_data_name(f.first)) { n++; mx = std::max(mx, f.second.size()); } c.label(n < 2 ? "1 data file" : n < 9 ? "2 to 8 data files" : n < 33 ? "9 to 32 data files" : "33 and more data files"); c.logf("%zu data files, the largest of %zu bytes", n, mx); }
static size_t nfiles(const std::string &p) { size_t n = 0; DIR *d = opendir(p.c_str()); if (!d) return 0; while (dirent *e = readdir(d)) if (is_data_name(e->d_name)) n++; closedir(d); return n; }

// Any history, under any limits.
static void limits_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 4, 5); if (s.chance(3, 4) && urkel_verif_max_file_size > 100000) urkel_verif_max_file_size = s.range(1023, 6000);
    World w(c, A_ALL); w.keys = gen_keys(s, 24); w.max_hist = 60; w.w[O_REOPEN] = 2; w.w[O_BURST] = 5; w.w[O_COMMIT] = 12; w.w[O_PROVE] = 2; w.w[O_FULL] = 1;
    w.open(); size_t steps = 10 + s.small(c.thorough ? 300 : 140);
    for (size_t i = 0; i < steps; i++) { if (s.chance(1, 25)) gen_limits(c, 1, 2); w.step(); }
    describe(c, w);
    w.full_db(A_ALL, "at the end"); w.reopen(); w.full_db(A_ALL, "at the end, reopened");
    c.nontrivial = w.n.commits >= 2 && nfiles(w.path) >= 2;
    w.close();
  });
}
// Every position of a file boundary within the same history.
static void offsets_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; size_t at = s.seed();
    World w(c, A_ALL); w.keys = gen_keys(s, 16); w.max_hist = 1000; size_t nc = 1 + s.below(3), per = 1 + s.small(24); bool reopen = s.chance(1, 2);
    std::vector<Changes> cs; Map m; for (size_t i = 0; i < nc; i++) { Changes ch; Map q = m; for (int k = 0; k < 4 && ch.empty(); k++) ch = gen_changes(s, w.keys, q, per, 15); m = q; cs.push_back(ch); }
    Map tail = m; Changes last = gen_changes(s, w.keys, tail, 3, 20);
    // what it takes in one file
    auto play = [&](bool check) {
      w.base.clear(); w.committed.clear(); w.hist.clear(); w.order.clear(); w.hist[H32{}] = Map(); w.open();
      auto one = [&](const Changes &ch) {
        urkel_tx_t *t = api::tx_create(w.db); w.chk(A_ALL, t, "no transaction"); Map q = w.base;
        for (auto &x : ch) { api::R r = x.del ? api::tx_remove(t, x.key) : api::tx_insert(t, x.key, x.v); w.chk(A_ALL, r.ok, "change fails with %s", err_name(r.err)); if (x.del) q.erase(x.key); else q[x.key] = x.v; }
        api::R r = api::tx_commit(t); w.chk(A_ALL, r.ok, "commit fails with %s", err_name(r.err)); w.did_commit(q);
        if (check) w.full_tx(A_ALL, "the committed transaction", t, q);
        api::tx_destroy(t); if (check) { w.full_db(A_ALL, "after a commit"); if (reopen) { w.reopen(); w.full_db(A_ALL, "after a commit and reopening"); } }
      };
      for (auto &ch : cs) one(ch);
      size_t total = 0; for (auto &f : db_files(w.path)) if (is_data_name(f.first)) total += f.second.size();
      if (check) { one(last); w.reopen(); w.full_db(A_ALL, "at the end, reopened"); }
      size_t n = nfiles(w.path); w.close(); remove_dir(w.path); return std::make_pair(total, n);
    };
    urkel_verif_max_file_size = 2147479552; size_t total = play(false).first; unsigned multi = 0;
    size_t span = total + 120 > 1023 ? total + 120 - 1023 : 1, tries = c.thorough ? 60 : 14;
    if (s.chance(1, 4)) urkel_verif_write_buffer = s.pickl({1, 100, 1000});
    for (size_t i = 0; i < tries; i++) {
      size_t back = (at + i * 7919 + i * i) % span; // from the end: the last seals first
      if (i % 3 == 0) back %= 130; if (i % 3 == 1) back %= 400;
      size_t size = total + 60 > 1023 + back ? total + 60 - back : 1023;
      urkel_verif_max_file_size = size; c.st.sub++;
      c.logf("%zu bytes in one file; now with files of at most %zu", total, size);
      if (play(true).second >= 2) multi++;
    }
    c.label("boundary positions", tries); c.label("of which gave several files", multi); c.nontrivial = multi >= 2;
  });
}
// Hundreds (thousands) of files.
static void files_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; urkel_verif_max_file_size = 1023 + s.below(60); if (s.chance(1, 2)) urkel_verif_max_open_files = s.range(2, 40);
    size_t want = c.thorough ? (c.idx == 0 ? 17000 : s.range(257, 4200)) : s.range(257, 420);
    World w(c, A_ALL); w.keys = gen_keys(s, 10); w.max_hist = 0; w.open();
    std::vector<std::pair<H32, Map>> some; some.push_back({H32{}, Map()});
    for (size_t i = 0; i < want * 2 && nfiles(w.path) < want;) for (size_t k = 0; k < 64; k++, i++) {
      H32 key = w.keys[mix64(i) % w.keys.size()]; Map m = w.base; bool del = m.count(key) && i % 7 == 3; Bytes v = mk_value(i % 3 ? 1023 - i % 50 : i % 300, i);
      api::R r = del ? api::remove(w.db, key) : api::insert(w.db, key, v); w.chk(A_ALL, r.ok, "change %zu fails with %s", i, err_name(r.err)); if (del) m.erase(key); else m[key] = v; w.did_commit(m);
      if (i % 97 == 5 || (i < 200 && i % 11 == 0)) some.push_back({ref_root(m), m});
      if (i % 401 == 400) { w.reopen(); }
    }
    size_t n = nfiles(w.path); c.logf("%zu files, open at once: %zu", n, urkel_verif_max_open_files); c.label("data files", n);
    auto all = [&](const char *what) { w.full_db(A_ALL, what, false); for (auto &x : some) w.full_root(A_ALL, what, x.first, x.second); };
    all("with many files"); w.reopen(); all("with many files, reopened");
    for (int i = 0; i < 3; i++) { H32 key = w.keys[i % w.keys.size()]; Map m = w.base; Bytes v = mk_value(900, i); w.chk(A_ALL, api::insert(w.db, key, v).ok, "insert with many files"); m[key] = v; w.did_commit(m); all("with many files, after another commit"); }
    c.nontrivial = n >= 257; w.close();
  });
}
// Positions up to and over the real size limit, in a file that is mostly a hole.
static void far_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, A_ALL); w.keys = gen_keys(s, 20); w.max_hist = 1000; w.open();
    for (size_t i = 0, n = 6 + s.below(20); i < n; i++) w.step();
    if (w.n.commits == 0) { if (w.txs.empty()) w.tx_open(); w.do_insert(w.txs[0], w.keys[0], "x"); w.do_commit(0); }
    w.close(); w.base = w.committed;
    std::string f = w.path + "/" + data_name(1); Bytes b; read_file(f, b);
    size_t seal = b.size() - 38; Bytes m = b.substr(seal);
    // the newest seal again, far away
    static const uint64_t LIM = 2147479552;
    uint64_t pos; switch (s.below(5)) { case 0: pos = (1ull << 30) - s.below(3000); break; case 1: pos = (1ull << 24) + s.below(1 << 20); break; case 2: pos = (1ull << 31) - 4096 - s.below(6000); break; case 3: pos = LIM - 38 * (1 + s.below(60)); break; default: pos = s.below(LIM - 100); }
    pos -= pos % 38; if (pos < b.size()) pos = b.size(); pos -= pos % 38; if (pos + 38 > LIM) pos -= 38;
    int fd = ::open(f.c_str(), O_RDWR); if (fd < 0 || ftruncate(fd, pos) || pwrite(fd, m.data(), 38, pos) != 38) { if (fd >= 0) ::close(fd); throw Skip{"sparse"}; } ::close(fd);
    c.logf("the file goes on at %llu", (unsigned long long)pos);
    w.open(); w.full_db(A_ALL, "with a far end");
    w.w[O_COMMIT] = 14; w.w[O_BURST] = 4; w.w[O_REOPEN] = 2;
    for (size_t i = 0, n = 10 + s.below(40); i < n; i++) w.step();
    w.full_db(A_ALL, "beyond a far end"); w.reopen(); w.full_db(A_ALL, "beyond a far end, reopened");
    size_t n = nfiles(w.path); if (n > 1) c.label("went over 2 GB"); c.nontrivial = w.n.commits >= 2 && (n > 1 || pos > 1 << 23);
    w.close();
  });
}
// One commit larger than the real write buffer, at the real limits.
static void big_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; World w(c, A_ALL); w.max_hist = 10; w.open(); uint64_t sd = s.seed(); size_t n = 66500 + s.below(4000);
    { urkel_tx_t *t = api::tx_create(w.db); H32 k = rnd_key(sd); w.chk(A_ALL, t && api::tx_insert(t, k, "first").ok && api::tx_commit(t).ok, "first commit"); api::tx_destroy(t); Map m; m[k] = "first"; w.did_commit(m); w.keys = {k}; }
    urkel_tx_t *t = api::tx_create(w.db); Map m = w.base;
    for (size_t i = 0; i < n; i++) { H32 k = rnd_key(sd + 1 + i); Bytes v = mk_value(1000 + (mix64(sd + i) % 24), sd + i); api::R r = api::tx_insert(t, k, v); w.chk(A_ALL, r.ok, "insert %zu: %s", i, err_name(r.err)); m[k] = v; }
    api::R r = api::tx_commit(t); w.chk(A_ALL, r.ok, "a commit of %zu records fails with %s", n, err_name(r.err)); api::tx_destroy(t); w.did_commit(m);
    struct stat st; stat((w.path + "/" + data_name(1)).c_str(), &st); c.logf("one commit of %zu records, %lld bytes", n, (long long)st.st_size);
    H32 e = ref_root(m); w.chk(A_ALL, api::root(w.db) == e, "root after a huge commit");
    auto sample = [&](const char *what) { for (size_t i = 0; i < n; i += 1 + i % 7) { H32 k = rnd_key(sd + 1 + i); w.chk_get(A_ALL, what, api::get(w.db, k), m, k); } urkel_iter_t *it = api::iterate(w.db); w.chk_iter(A_ALL, what, it, m); };
    sample("after a huge commit"); w.reopen(); sample("after a huge commit, reopened");
    H32 k = rnd_key(sd + 5); Bytes v = "new"; w.chk(A_ALL, api::insert(w.db, k, v).ok, "insert after a huge commit"); m[k] = v; w.did_commit(m); w.reopen(); w.chk_get(A_ALL, "after another commit", api::get(w.db, k), m, k);
    c.nontrivial = st.st_size > (64 << 20); w.close();
  });
}
const Prop the_prop = {"C16", "limits: at least two commits over at least two files; offsets: at least two of the boundary positions gave several files; files: at least 257 files; far: positions beyond 8 MB; big: one commit over 64 MB",
  {{"limits", limits_stage, 30000, 400000, 8}, {"offsets", offsets_stage, 1800, 30000, 8}, {"files", files_stage, 80, 300, 8, 400}, {"far", far_stage, 3000, 30000, 8, 60}, {"big", big_stage, 1, 4, 2, 400}}};
