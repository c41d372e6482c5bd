// Spellings of paths, from any working directory.
#include "script.hh"

namespace {
std::string allowed; // whatever the code does, nothing outside is changed
Action guard(const Call &c) {
  bool mut = c.sc == S_UNLINK || c.sc == S_RMDIR || c.sc == S_RENAME || c.sc == S_TRUNCATE || c.sc == S_MKDIR || (c.sc == S_OPEN && (c.flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)));
  if (!mut || !c.path || !strcmp(c.path, "/dev/urandom")) return {Action::PASS, 0, 0};
  std::string p = c.path; if (p[0] != '/') { char b[9000]; if (!getcwd(b, sizeof b)) return {Action::ERR, ENOENT, 0}; p = std::string(b) + "/" + p; }
  // (no symbolic links here: the lexical meaning of a path is its real one)
  std::string r; for (size_t i = 0; i <= p.size();) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string k = p.substr(i, e - i); if (k == "..") { size_t q = r.rfind('/'); r.resize(q == std::string::npos ? 0 : q); } else if (k.size() && k != ".") r += "/" + k; i = e + 1; }
  bool in = r.compare(0, allowed.size() + 1, allowed + "/") == 0;
  if (!in) { static char m[1200]; snprintf(m, sizeof m, "%s of %.1000s, which is not below the directory asked for", sc_name[c.sc], p.c_str()); die_fail(m); }
  return {Action::PASS, 0, 0};
}
typedef std::vector<std::string> Comps;
Comps split(const std::string &p) { Comps v; size_t i = 0; while (i <= p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); if (e > i) v.push_back(p.substr(i, e - i)); i = e + 1; } return v; }
std::string join(const Comps &v) { std::string s; for (auto &x : v) s += "/" + x; return s; }

struct Paths {
  Ctx &c; Src &s; std::string root; std::vector<std::string> dirs; // existing directories, canonical
  uint64_t n_rel = 0, n_dot = 0, n_dd = 0, n_sl = 0;
  Paths(Ctx &c_) : c(c_), s(c_.s), root(c_.dir + "/t") {
    allowed = c.dir; sys_policy = guard; mkdir(root.c_str(), 0755); dirs.push_back(root);
    size_t n = 2 + s.below(7);
    for (size_t i = 0; i < n; i++) { Span sp(s); std::string p = dirs[s.below(dirs.size())] + "/" + name(); if (p.size() < 700 && mkdir(p.c_str(), 0755) == 0) dirs.push_back(p); }
  }
  std::string name() {
    static const char *const odd[] = {"a", "b", "...", "..a", ".a", "a.", "a..", "a b", ".. ", " ", "....", ".-", "\xc3\xa9", "\xff", "~", "-p", "db", "meta", "0000000001", "lock", "c:", "\\", "%s"};
    if (s.chance(1, 8)) return std::string(1 + s.below(200), (char)('k' + s.below(10)));
    return odd[s.below(sizeof odd / sizeof *odd)];
  }
  void go(const std::string &d) { if (chdir(d.c_str())) { fprintf(stderr, "harness: chdir %s: %s\n", d.c_str(), strerror(errno)); _exit(2); } }
  // Below the directory d: an existing subdirectory to pass through, or nothing.
  std::string sub(const std::string &d) { std::vector<std::string> v; for (auto &x : dirs) if (x.size() > d.size() + 1 && x.compare(0, d.size() + 1, d + "/") == 0 && x.find('/', d.size() + 1) == std::string::npos) v.push_back(x.substr(d.size() + 1)); return v.empty() ? "" : v[s.below(v.size())]; }
  std::string slashes() { n_sl++; return std::string(s.chance(1, 8) ? 2 + s.below(40) : 1 + s.below(3), '/'); }
  // Another way to say the canonical path p, seen from the canonical cwd.
  std::string spell(const std::string &p, const std::string &cwd, size_t noise) {
    Comps t = split(p), w = split(cwd); std::string out; Comps at;
    bool rel = s.chance(1, 2);
    if (rel) {
      n_rel++; size_t k = 0; while (k < t.size() && k < w.size() && t[k] == w[k]) k++;
      // perhaps further up than needed, and even above the top
      size_t base = noise && s.chance(1, 8) ? 0 : split(root).size(); size_t lo = std::min(k, base); if (s.chance(1, 4) && lo < k) k = lo + s.below(k - lo + 1);
      for (size_t i = w.size(); i > k; i--) { out += (out.empty() ? "" : "/"); if (noise && s.chance(1, 6)) { out += "./"; } out += ".."; }
      if (k == 0 && s.chance(1, 2)) out += "/..";
      at.assign(t.begin(), t.begin() + k);
    }
    size_t i = at.size();
    if (noise && !rel && s.chance(1, 5)) { out += s.chance(1, 6) ? slashes() + ".." : "/.."; if (s.chance(1, 3)) out += "/.."; n_dd++; } // above the top
    bool first = rel && out.empty();
    auto sep = [&] { if (first) first = false; else out += noise && s.chance(1, 4) ? slashes() : "/"; };
    while (i < t.size() || (noise && s.chance(1, 8))) {
      Span sp(s);
      unsigned k = noise ? s.below(12) : 0;
      if (noise && k == 10) { sep(); out += "."; n_dot++; noise--; continue; }
      if (noise && k == 11 && at.size() >= split(root).size()) { // down and back up
        std::string d = sub(join(at)); noise--;
        if (!d.empty()) { sep(); out += d; sep(); out += ".."; n_dd++; continue; } }
      if (noise && k == 9 && at.size() && exists(join(at))) { sep(); out += ".."; n_dd++; noise--; sep(); out += at.back(); continue; } // up and down again
      if (i < t.size()) { sep(); out += t[i]; at.push_back(t[i]); i++; } else { noise = 0; }
    }
    if (out.empty()) out = rel ? "." : "/";
    if (s.chance(1, 5)) out += s.chance(1, 3) ? "/." : slashes();
    return out;
  }
  void walk(const std::string &d, Files &out) {
    DIR *h = opendir(d.c_str()); if (!h) return;
    while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { out[p] = "/"; walk(p, out); } else if (n == "lock") out[p]; else read_file(p, out[p]); } // (reading the lock file would release it)
    closedir(h);
  }
  Files tree() { Files f; walk(root, f); return f; }
  Files outside(const std::string &db) { Files f = tree(); for (auto i = f.begin(); i != f.end();) if (i->first == db || i->first.compare(0, db.size() + 1, db + "/") == 0) i = f.erase(i); else ++i; return f; }
};
const H32 K1 = rnd_key(501), K2 = rnd_key(502);
void put(urkel_t *db, Map &m, const H32 &k, const Bytes &v) { api::R r = api::insert(db, k, v); REQUIRE(r.ok, "insert fails with %s", err_name(r.err)); m[k] = v; }
void same(urkel_t *db, const Map &m, const char *what) {
  H32 g = api::root(db); REQUIRE(g == ref_root(m), "%s: root %s instead of %s: another database", what, shx(g).c_str(), shx(ref_root(m)).c_str());
  for (auto &x : m) { auto r = api::get(db, x.first); REQUIRE(r.ok && r.v == x.second, "%s: a record is %s", what, r.ok ? "different" : err_name(r.err)); }
}
struct Guard { ~Guard() { sys_policy = nullptr; } };

void spellings(Ctx &c) {
  Src &s = c.s; Guard g0; Paths p(c); Limits lim; if (s.chance(1, 2)) urkel_verif_max_file_size = s.range(1023, 3000); if (s.chance(1, 2)) urkel_verif_max_open_files = s.range(2, 4);
  std::string db;
  for (int i = 0; i < 20 && (db.empty() || exists(db)); i++) db = p.dirs[s.below(p.dirs.size())] + "/" + p.name();
  bool pre = s.chance(1, 5); // the directory is there already
  if (exists(db)) { db = p.root + "/fresh"; }
  if (pre) { mkdir(db.c_str(), 0755); p.dirs.push_back(db); }
  Map m; size_t rounds = 2 + s.below(4); uint64_t ops = 0; std::string first;
  Files out0 = p.outside(db);
  auto cwd = [&] { std::string d = p.dirs[s.below(p.dirs.size())]; p.go(d); return d; };
  c.logf("database %s", db.c_str() + c.dir.size());
  for (size_t r = 0; r < rounds; r++) {
    Span sp(s);
    std::string w = cwd(), q = p.spell(db, w, s.below(6));
    int e; urkel_t *h = api::open(q, &e);
    c.logf("in %s: open \"%s\": %s", w.c_str() + c.dir.size(), q.c_str(), h ? "ok" : err_name(e));
    REQUIRE(h, "\"%s\" from %s names the database %s, but opening it fails with %s", q.c_str(), w.c_str(), db.c_str(), err_name(e));
    struct G { urkel_t *&h; ~G() { if (h) api::close(h); } } g{h};
    REQUIRE(exists(db + "/meta") && exists(db + "/lock"), "\"%s\" from %s was opened, but no database is at %s", q.c_str(), w.c_str(), db.c_str());
    same(h, m, "the opened database");
    if (s.chance(1, 2)) { std::string w2 = cwd(); c.logf("  now in %s", w2.c_str() + c.dir.size()); }
    for (size_t i = 0, n = 1 + s.below(4); i < n; i++) { put(h, m, s.chance(1, 2) ? K1 : rnd_key(s.below(6)), gen_value(s)); ops++; if (s.chance(1, 4)) cwd(); }
    same(h, m, "the database in use");
    std::string d = files_diff(out0, p.outside(db)); REQUIRE(d.empty(), "outside of %s: %s", db.c_str(), d.c_str());
    api::close(h); h = nullptr;
    REQUIRE(!exists(db + "/lock"), "closed, but its lock file is there");
    d = files_diff(out0, p.outside(db)); REQUIRE(d.empty(), "outside of %s: %s", db.c_str(), d.c_str());
  }
  if (s.chance(2, 3)) {
    if (pre) p.dirs.pop_back();
    std::string w = cwd(), q = p.spell(db, w, s.below(6)); api::R x = api::destroy(q);
    c.logf("in %s: destroy \"%s\": %s", w.c_str() + c.dir.size(), q.c_str(), x.ok ? "ok" : err_name(x.err));
    REQUIRE(x.ok, "\"%s\" from %s names the database %s, but destroying it fails with %s", q.c_str(), w.c_str(), db.c_str(), err_name(x.err));
    REQUIRE(!exists(db), "destroyed by the name \"%s\", but it is still there", q.c_str());
    std::string d = files_diff(out0, p.outside(db)); REQUIRE(d.empty(), "outside of %s: %s", db.c_str(), d.c_str());
  }
  c.label("relative", p.n_rel); c.label("with .", p.n_dot); c.label("with ..", p.n_dd); c.label("with repeated slashes", p.n_sl);
  c.nontrivial = p.n_rel && ops && (p.n_dot + p.n_dd + p.n_sl) >= 2;
}

void refused(Ctx &c) {
  Src &s = c.s; Guard g0; Paths p(c); uint64_t n = 0;
  write_file(p.root + "/file", "a file");
  for (size_t i = 0, k = 2 + s.below(5); i < k; i++) {
    Span sp(s);
    std::string w = p.dirs[s.below(p.dirs.size())], par = p.dirs[s.below(p.dirs.size())], q, what; p.go(w);
    switch (s.below(5)) {
      case 0: what = "missing parent"; q = p.spell(par + "/no such dir/db", w, s.below(4)); break;
      case 1: what = "deep missing parent"; q = p.spell(par + "/none/x/y/db", w, s.below(4)); break;
      case 2: what = "a file"; q = p.spell(p.root + "/file", w, 0); while (q.size() && (q.back() == '/' || q.back() == '.')) q.pop_back(); break;
      case 3: what = "below a file"; q = p.spell(p.root + "/file/db", w, 0); break;
      default: { what = "no working directory"; std::string gone = p.root + "/gone"; mkdir(gone.c_str(), 0755); p.go(gone); rmdir(gone.c_str()); q = s.chance(1, 2) ? "db" : s.chance(1, 2) ? "./db" : "."; break; }
    }
    Files t0 = p.tree(); int e; bool des = s.chance(1, 3);
    if (des) { api::R x = api::destroy(q); e = x.ok ? 0 : x.err; } else { urkel_t *h = api::open(q, &e); if (h) api::close(h); }
    c.logf("%s \"%s\" (%s): %s", des ? "destroy" : "open", q.c_str(), what.c_str(), err_name(e));
    REQUIRE(e == URKEL_EBADOPEN, "%s of \"%s\" (%s) gives %s instead of EBADOPEN", des ? "destroy" : "open", q.c_str(), what.c_str(), err_name(e));
    std::string d = files_diff(t0, p.tree()); REQUIRE(d.empty(), "a refused %s of \"%s\" (%s): %s", des ? "destroy" : "open", q.c_str(), what.c_str(), d.c_str());
    c.label("refused: " + what); n++;
  }
  c.nontrivial = n >= 2;
}

// Lengths around the limit, and spellings far beyond it.
void lengths(Ctx &c) {
  Src &s = c.s; Guard g0; Paths p(c); Limits lim; urkel_verif_max_file_size = 1100;
  size_t len; // of the canonical path
  size_t mode = c.idx % 4;
  if (mode < 2) len = 990 + (c.idx / 4) % 60; else if (mode == 2) len = 400 + s.below(600); else len = 1000 + s.below(3200);
  std::string d = p.root; bool made = true;
  while (len - d.size() > 230) { size_t k = std::min<size_t>(len - d.size() - 110, 60 + s.below(140)); d += "/" + std::string(k, (char)('A' + s.below(26))); if (mkdir(d.c_str(), 0755)) { made = false; break; } p.dirs.push_back(d); }
  if (!made) { c.label("no such directory can be made"); return; }
  size_t left = len - d.size() - 1; std::string db = d + "/" + std::string(left, 'z');
  std::string w = p.dirs[s.below(p.dirs.size())]; if (s.chance(1, 2)) w = p.dirs.back(); p.go(w);
  size_t total = 0; std::string q;
  if (s.chance(1, 3)) { // long by repetition
    total = s.pickl({900, 1013, 1024, 1100, 4095, 4096, 5000, 8190, 8192, 8193, 9000, 20000, 70000}); total += s.below(5);
    bool rel = s.chance(1, 2); if (rel && s.chance(1, 2)) { static const size_t whole[] = {1024, 4096, 8192}; size_t x = whole[s.below(3)]; if (x > w.size() + 8) total = x - w.size() - 4 + s.below(8); }
    q = rel ? "" : "/";
    std::string tail; if (rel) { Comps t = split(db), x = split(w); size_t k = 0; while (k < t.size() && k < x.size() && t[k] == x[k]) k++; for (size_t i = x.size(); i > k; i--) tail += "../"; for (; k < t.size(); k++) tail += t[k] + (k + 1 < t.size() ? "/" : ""); } else tail = db.substr(1);
    while (q.size() + tail.size() < total) { unsigned k = s.below(3); if (q.size() + tail.size() + 1 == total) break; size_t room = total - q.size() - tail.size(); if (k == 0 && q.size()) q += std::string(std::min<size_t>(room, 1 + s.below(500)), '/'); else { size_t r = 1 + s.below(200); while (r-- && q.size() + tail.size() + 2 <= total) q += "./"; } }
    q += tail;
  } else q = p.spell(db, w, s.below(4));
  bool rel = q[0] != '/';
  // must be handled: what the system itself could, well below the limits
  bool must = len <= 900 && (rel ? q.size() + w.size() <= 4000 : true);
  Files t0 = p.tree(); int e; urkel_t *h = api::open(q, &e);
  c.logf("in a directory of length %zu: open a spelling of %zu bytes of a path of %zu bytes: %s", w.size(), q.size(), len, h ? "ok" : err_name(e));
  if (!h) {
    REQUIRE(!must, "a path of %zu bytes (spelled with %zu) is refused: %s", len, q.size(), err_name(e));
    REQUIRE(e == URKEL_EBADOPEN, "a path of %zu bytes (spelled with %zu) is refused with %s", len, q.size(), err_name(e));
    std::string df = files_diff(t0, p.tree()); REQUIRE(df.empty(), "a refused path of %zu bytes: %s", len, df.c_str());
    api::R x = api::destroy(q); REQUIRE(!x.ok && x.err == URKEL_EBADOPEN, "destroying what was refused: %d %s", x.ok, err_name(x.err));
    if (db.size() < 4000 && mkdir(db.c_str(), 0755) == 0) { // the same with a directory that others made, and with files in it
      size_t k = s.below(4); if (k & 1) write_file(db + "/0000000001", "x"); if (k & 2) write_file(db + "/meta", Bytes(32, 'k'));
      t0 = p.tree(); h = api::open(q, &e); if (h) { api::close(h); fail("a path of %zu bytes is refused, but not when the directory is there", len); }
      REQUIRE(e == URKEL_EBADOPEN, "a path of %zu bytes (spelled with %zu) is refused with %s", len, q.size(), err_name(e));
      x = api::destroy(q); REQUIRE(!x.ok && x.err == URKEL_EBADOPEN, "destroying a directory whose path cannot be opened: %d %s", x.ok, err_name(x.err));
      df = files_diff(t0, p.tree()); REQUIRE(df.empty(), "a refused path of %zu bytes whose directory exists: %s", len, df.c_str());
      c.label("refused for its length, directory exists");
    }
    c.label("refused for its length"); c.nontrivial = true; return;
  }
  Map m;
  try {
    for (int i = 0; i < 6; i++) put(h, m, rnd_key(i), Bytes(300 + 100 * i, 'v')); // several files
    same(h, m, "the opened database");
  } catch (Failure &) { api::close(h); throw; }
  api::close(h);
  Files f = db_files(db); size_t nd = 0; for (auto &x : f) nd += is_data_name(x.first);
  REQUIRE(f.count("meta") && nd >= 1 && nd + 1 == f.size(), "a database at a path of %zu bytes has these files missing or in excess: %zu data files, %zu in all", len, nd, f.size());
  Files o = p.outside(db); std::string df = files_diff(t0, o); REQUIRE(df.empty(), "outside of a path of %zu bytes: %s", len, df.c_str());
  p.go(p.dirs[s.below(p.dirs.size())]);
  h = api::open(db, &e); REQUIRE(h, "the canonical path of %zu bytes does not open again: %s", len, err_name(e));
  try { same(h, m, "the reopened database"); } catch (Failure &) { api::close(h); throw; }
  api::close(h);
  api::R x = api::destroy(db); REQUIRE(x.ok && !exists(db), "destroying a path of %zu bytes: %s", len, err_name(x.err));
  c.label("long path in use"); c.nontrivial = true;
}
} // namespace
extern const Prop the_prop = {"C22", "spellings: at least one relative spelling, two of its decorations and one commit; refused: at least two refusals; lengths: every case that could be set up", {
  {"spellings", spellings, 60000, 1500000, 8},
  {"refused", refused, 20000, 500000, 8},
  {"lengths", lengths, 10000, 200000, 8},
}};
