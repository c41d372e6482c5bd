#include "life.hh"
#include <signal.h>

static std::string allowed_dir; // nothing outside may be touched, whatever the code does
static struct { bool on; int64_t k, n, left; int sc; int err; uint64_t fired; char what[64]; } F;
static Action policy(const Call &c) {
  bool del = c.sc == S_UNLINK || c.sc == S_RMDIR || c.sc == S_RENAME || c.sc == S_TRUNCATE || c.sc == S_MKDIR || (c.sc == S_OPEN && (c.flags & (O_CREAT | O_TRUNC)));
  if (del && c.path) {
    std::string p = c.path;
    bool in = p[0] == '/' ? p.compare(0, allowed_dir.size() + 1, allowed_dir + "/") == 0 : true;
    if (!in || ("/" + p + "/").find("/../") != std::string::npos) { if (p != "/dev/urandom") { static char m[600]; snprintf(m, sizeof m, "%s of %s, outside the database", sc_name[c.sc], p.c_str()); die_fail(m); } }
  }
  if (!F.on || (F.sc >= 0 && c.sc != F.sc) || c.sc == S_MUNMAP || c.sc == S_CLOSE || c.sc == S_GETCWD) return {Action::PASS, 0, 0};
  if (F.n++ < F.k || F.left == 0) return {Action::PASS, 0, 0};
  if (F.left > 0) F.left--;
  F.fired++; snprintf(F.what, sizeof F.what, "%s %s", sc_name[c.sc], c.file);
  return {Action::ERR, F.err, 0};
}
// The tree below a directory: path -> content ("@" + target for links, "/" for directories)
static void tree(const std::string &root, const std::string &rel, Files &out) {
  DIR *d = opendir((root + rel).c_str()); if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string r = rel + "/" + n, p = root + r; struct stat st; if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { out[r] = "/"; tree(root, r, out); }
    else if (S_ISLNK(st.st_mode)) { char b[512]; ssize_t k = readlink(p.c_str(), b, sizeof b); out[r] = "@" + std::string(b, k > 0 ? k : 0); }
    else read_file(p, out[r]);
  }
  closedir(d);
}
static Files tree(const std::string &root) { Files f; tree(root, "", f); return f; }
static Files without(Files f, const std::string &pre) { for (auto i = f.begin(); i != f.end();) if (i->first == pre || i->first.compare(0, pre.size() + 1, pre + "/") == 0) i = f.erase(i); else ++i; return f; }
static void fresh(Ctx &c, World &w, const char *when) {
  int e; w.db = api::open(w.path, &e); REQUIRE(w.db, "%s: a new database cannot be opened there: %s", when, err_name(e));
  H32 z{}; REQUIRE(api::root(w.db) == z, "%s: the new database is not empty", when);
  for (auto &k : w.keys) { api::RV r = api::get(w.db, k); REQUIRE(!r.ok && r.err == URKEL_ENOTFOUND, "%s: the new database knows a key of the old one", when); }
  for (auto &h : w.order) if (h != z) { int er; urkel_tx_t *t = api::tx_create(w.db, &h, &er); REQUIRE(!t && er == URKEL_ENOTFOUND, "%s: the new database knows a root of the old one", when); }
  Map m; for (size_t i = 0; i < 3; i++) { Bytes v = gen_value(c.s); REQUIRE(api::insert(w.db, w.keys[i % w.keys.size()], v).ok, "%s: insert into the new database", when); m[w.keys[i % w.keys.size()]] = v; }
  api::close(w.db); w.db = api::open(w.path, &e); REQUIRE(w.db && api::root(w.db) == ref_root(m), "%s: the new database does not keep its data", when);
  api::close(w.db); w.db = nullptr;
  w.base = w.committed = m; w.hist.clear(); w.order.clear(); w.hist[z] = Map();
}

static void destroy_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2); allowed_dir = c.dir; sys_policy = policy; F.on = false;
    World w(c, 0); w.keys = gen_keys(s, 8); w.w[O_REOPEN] = 2; w.w[O_BAD] = 0; w.w[O_FULL] = 0;
    // neighbours
    std::string nb[] = {"db2", "db.bak", "d", "0000000001", "meta", "lock", "dbx/0000000001", "dbx/meta", "0000000002/x"};
    for (auto &n : nb) if (s.chance(1, 3)) { size_t p = n.find('/'); if (p != std::string::npos) mkdir((c.dir + "/" + n.substr(0, p)).c_str(), 0755); write_file(c.dir + "/" + n, "neighbour " + n); }
    unsigned did = 0, refused = 0;
    for (size_t r = 0, rn = 1 + s.below(3); r < rn; r++) {
      Span sp(s);
      std::string spell = w.path; switch (s.below(6)) { case 0: spell = "db"; break; case 1: spell = "./db"; break; case 2: spell = w.path + "/"; break; case 3: spell = "db//."; break; default: break; }
      unsigned kind = s.weighted((const unsigned[]){6, 3, 1, 1, 2}, 5);
      if (kind == 2) { // nothing there
        std::string no = c.dir + (s.chance(1, 2) ? "/none" : "/none/db"); Files t = tree(c.dir); api::R x = api::destroy(no); c.logf("destroy of nothing: %s", x.ok ? "ok" : err_name(x.err));
        REQUIRE(!x.ok && x.err == URKEL_EBADOPEN, "destroying what does not exist: %d, %s", x.ok, err_name(x.err)); std::string d = files_diff(t, tree(c.dir)); REQUIRE(d.empty(), "destroying what does not exist: %s", d.c_str()); refused++; continue; }
      if (kind == 3) { // a file
        write_file(c.dir + "/file", "a file"); Files t = tree(c.dir); api::R x = api::destroy(c.dir + "/file"); c.logf("destroy of a file: %s", x.ok ? "ok" : err_name(x.err));
        REQUIRE(!x.ok && x.err == URKEL_EBADOPEN, "destroying a file: %d, %s", x.ok, err_name(x.err)); std::string d = files_diff(t, tree(c.dir)); REQUIRE(d.empty(), "destroying a file: %s", d.c_str()); refused++; continue; }
      if (kind == 4) { // a directory that is no database
        std::string q = c.dir + "/other"; mkdir(q.c_str(), 0755); write_file(q + "/notes.txt", "notes"); if (s.chance(1, 2)) write_file(q + "/.hidden", "x"); Files t = tree(c.dir); api::R x = api::destroy(q); c.logf("destroy of another directory: %s", x.ok ? "ok" : err_name(x.err));
        REQUIRE(!x.ok && x.err == URKEL_EBADOPEN, "destroying a directory that is no database: %d, %s", x.ok, err_name(x.err)); Files u = tree(c.dir); std::string d = files_diff(t, u); REQUIRE(d.empty(), "destroying a directory that is no database: %s", d.c_str()); refused++; continue; }
      w.open(A_ALL); for (size_t i = 0, n = s.small(40); i < n; i++) w.step();
      w.close(); w.base = w.committed;
      // what a killed process or an accident leaves
      Files f = db_files(w.path); if (s.chance(1, 4)) { write_file(w.path + "/lock", ""); c.logf("a lock file of a killed process is there"); }
      if (s.chance(1, 6)) for (auto &x : f) if (is_data_name(x.first) && s.chance(1, 2)) { write_file(w.path + "/" + x.first, x.second.substr(0, s.below(x.second.size() + 1))); c.logf("%s is cut", x.first.c_str()); }
      if (s.chance(1, 10)) { unlink((w.path + "/meta").c_str()); c.logf("meta is missing"); }
      if (s.chance(1, 8) && !f.empty()) { for (auto &x : f) if (is_data_name(x.first) && s.chance(1, 3)) { unlink((w.path + "/" + x.first).c_str()); c.logf("%s is missing", x.first.c_str()); } }
      std::vector<std::string> foreign;
      if (kind == 1) {
        static const char *const nm[] = {"notes.txt", ".hidden", "meta2", "metadata", "Meta", "met", "lock2", "000000001", "00000000001", "0000000001.bak", "0000000001~", "000000000a", "99999999999", "x000000001", "0000000001x", " 000000001", "-000000001", "META", "0x00000001", "lock.old", "sub", "link", "0000000044", "meta.d"};
        for (size_t i = 0, n = 1 + s.below(4); i < n; i++) {
          std::string x = nm[s.below(sizeof nm / sizeof *nm)], p = w.path + "/" + x; if (exists(p)) continue;
          if (x == "sub" || x == "meta.d" || x == "0000000044") { mkdir(p.c_str(), 0755); if (s.chance(1, 2)) write_file(p + "/0000000001", "not yours"); }
          else if (x == "link") { write_file(c.dir + "/target", "elsewhere"); if (symlink((c.dir + "/target").c_str(), p.c_str())) {} }
          else write_file(p, "foreign " + x);
          foreign.push_back(x);
        }
      }
      if (s.chance(1, 10)) { write_file(c.dir + "/target2", "elsewhere"); if (symlink((c.dir + "/target2").c_str(), (w.path + "/4000000000").c_str())) {} }
      Files before = tree(c.dir);
      // faults now and then
      bool fault = s.chance(1, 4);
      if (fault) { F.sc = s.chance(1, 3) ? -1 : (int)s.pickl({S_UNLINK, S_RMDIR, S_OPEN, S_OPENDIR, S_FCNTL, S_READDIR}); F.k = s.below(F.sc < 0 ? 8 : 3); F.left = s.chance(1, 2) ? 1 : -1; F.err = s.pickl({EIO, EACCES, EPERM, EBUSY, ENOMEM}); F.n = F.fired = 0; F.what[0] = 0; F.on = true; }
      int fd0 = lib_fds();
      api::R x = api::destroy(spell); F.on = false; bool hit = fault && F.fired;
      c.logf("destroy of \"%s\" with %zu foreign files%s%s: %s", spell.c_str(), foreign.size(), hit ? ", failing " : "", hit ? F.what : "", x.ok ? "ok" : err_name(x.err));
      REQUIRE(lib_fds() == fd0, "destroy keeps %d descriptors", lib_fds() - fd0);
      Files after = tree(c.dir);
      { std::string d = files_diff(without(before, "/db"), without(after, "/db")); REQUIRE(d.empty(), "destroy touched what is not the database's: %s", d.c_str()); }
      for (auto &y : before) { bool mine = false; for (auto &g : foreign) if (y.first == "/db/" + g || y.first.compare(0, g.size() + 5, "/db/" + g + "/") == 0) mine = true; if (!mine) continue; auto it = after.find(y.first); REQUIRE(it != after.end(), "destroy removed the foreign file %s", y.first.c_str()); REQUIRE(it->second == y.second, "destroy changed the foreign file %s", y.first.c_str()); }
      for (auto &y : after) if (y.first.compare(0, 4, "/db/") == 0) REQUIRE(before.count(y.first) || (y.first == "/db/lock" && hit), "destroy created %s", y.first.c_str());
      if (!x.ok) { REQUIRE(x.err == URKEL_EBADOPEN, "a refused destroy reports %s", err_name(x.err)); refused++; }
      if (x.ok) REQUIRE(!exists(w.path), "destroy succeeds and the database is still there%s", foreign.empty() ? "" : " (as foreign files are)");
      else if (foreign.empty() && !hit) fail("destroy fails with %s though nothing stands in its way", err_name(x.err));
      if (!x.ok) { // without what stood in the way
        for (auto &g : foreign) { std::string p = w.path + "/" + g; if (exists(p + "/0000000001")) unlink((p + "/0000000001").c_str()); if (unlink(p.c_str())) rmdir(p.c_str()); }
        api::R y = api::destroy(w.path); REQUIRE(y.ok, "destroy fails with %s although what stood in its way is gone", err_name(y.err)); REQUIRE(!exists(w.path), "destroyed, but still there");
      }
      did++; fresh(c, w, "after destroying");
      if (s.chance(1, 3)) { REQUIRE(api::destroy(w.path).ok, "destroying the new database"); api::R y = api::destroy(w.path); REQUIRE(!y.ok && y.err == URKEL_EBADOPEN, "destroying twice: %d, %s", y.ok, err_name(y.err)); w.base = w.committed = Map(); }
    }
    c.label("destroyed", did); c.label("refused", refused); c.nontrivial = did >= 1 && w.n.commits >= 1;
  });
}
// Another process has it open.
static void inuse_stage(Ctx &c) {
  Limits lim; judged(c, [&] {
    Src &s = c.s; gen_limits(c, 1, 2); allowed_dir = c.dir; sys_policy = policy; F.on = false;
    World w(c, 0); w.keys = gen_keys(s, 8); w.w[O_REOPEN] = 2; w.w[O_BAD] = 0; w.w[O_FULL] = 0;
    w.open(A_ALL); for (size_t i = 0, n = s.small(40); i < n; i++) w.step();
    w.close(); w.base = w.committed;
    int to[2], from[2]; if (pipe(to) || pipe(from)) _exit(2);
    std::vector<Bytes> vals; for (int i = 0; i < 3; i++) vals.push_back(gen_value(s));
    bool busytx = s.chance(1, 2); unsigned tries = 1 + s.below(3); bool dies = s.chance(1, 3);
    fflush(nullptr); pid_t pid = fork();
    if (pid == 0) {
      close(to[1]); close(from[0]); char ch; auto say = [&](char x) { if (write(from[1], &x, 1) != 1) _exit(3); };
      int e; urkel_t *db = api::open(w.path, &e); if (!db) { say('n'); _exit(0); }
      urkel_tx_t *t = busytx ? api::tx_create(db) : nullptr; if (t) api::tx_insert(t, w.keys[0], "buffered");
      say('o'); 
      Map m = w.base;
      for (unsigned i = 0; i < tries; i++) {
        if (read(to[0], &ch, 1) != 1) _exit(3);
        // everything is still there
        bool ok = api::root(db) == ref_root(m); for (auto &k : w.keys) { api::RV r = api::get(db, k); auto it = m.find(k); if (it == m.end() ? r.ok || r.err != URKEL_ENOTFOUND : !r.ok || r.v != it->second) ok = false; }
        if (!api::insert(db, w.keys[i % w.keys.size()], vals[i]).ok) ok = false;
        m[w.keys[i % w.keys.size()]] = vals[i];
        say(ok ? 'y' : 'b');
      }
      if (read(to[0], &ch, 1) != 1) _exit(3);
      if (dies) kill_self();
      if (t) api::tx_destroy(t);
      api::close(db); _exit(0);
    }
    close(to[0]); close(from[1]);
    struct G { pid_t p; int a, b; ~G() { if (p > 0) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); } close(a); close(b); } } g{pid, to[1], from[0]};
    char ch; if (read(from[0], &ch, 1) != 1) fail("the owner ends by itself"); if (ch != 'o') throw Skip{"open"};
    Map m = w.base;
    for (unsigned i = 0; i < tries; i++) {
      Files before = tree(c.dir); api::R x = api::destroy(w.path); c.logf("destroy while another process has it open: %s", x.ok ? "ok" : err_name(x.err));
      REQUIRE(!x.ok, "a database that another process has open is destroyed"); REQUIRE(x.err == URKEL_EBADOPEN, "refused with %s instead of EBADOPEN", err_name(x.err));
      std::string d = files_diff(before, tree(c.dir)); REQUIRE(d.empty(), "a refused destroy of a database in use: %s", d.c_str());
      if (s.chance(1, 3)) { int e; urkel_t *db = api::open(w.path, &e); if (db) api::close(db); REQUIRE(!db, "after a refused destroy, the database in use can be opened a second time"); }
      if (write(to[1], "g", 1) != 1 || read(from[0], &ch, 1) != 1) fail("the owner ends by itself after a refused destroy");
      REQUIRE(ch == 'y', "after a refused destroy the process that has the database open no longer sees its data or cannot commit");
      m[w.keys[i % w.keys.size()]] = vals[i];
    }
    if (write(to[1], "g", 1) != 1) fail("the owner ends by itself");
    int st; waitpid(pid, &st, 0); g.p = 0;
    if (!dies) REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the owner fails at its close (status %x)", st);
    if (s.chance(1, 2)) { w.base = w.committed = m; int e; w.db = api::open(w.path, &e); REQUIRE(w.db, "the owner is gone and open fails with %s", err_name(e)); REQUIRE(api::root(w.db) == ref_root(m), "a commit of the owner made after a refused destroy is lost"); api::close(w.db); w.db = nullptr; }
    api::R x = api::destroy(w.path); REQUIRE(x.ok, "the owner is gone and destroy fails with %s", err_name(x.err)); REQUIRE(!exists(w.path), "destroyed, but still there");
    fresh(c, w, "after destroying");
    c.label("refused, in use", tries); c.nontrivial = w.n.commits >= 1;
  });
}
const Prop the_prop = {"C15", "destroy: a database with at least one commit was destroyed; inuse: at least one commit before, and a refused destroy while another process had it open",
  {{"destroy", destroy_stage, 40000, 2000000, 8}, {"inuse", inuse_stage, 6000, 320000, 8}}};
