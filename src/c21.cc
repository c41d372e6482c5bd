// The command line tool, as a separate process, next to a dictionary model.
#include "world.hh"
#include "script.hh"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>

extern char **environ;
namespace {
struct Out { int status; Bytes out, err; double s; };
struct DbM { bool there = false; Map m; std::map<H32, Map> hist; std::vector<H32> order; };
struct Inv { std::vector<std::string> args; std::string cwd, env; bool has_env = false; bool san = false; };

bool set_cloexec(int fd) { return fcntl(fd, F_SETFD, FD_CLOEXEC) == 0; }
// Runs the tool as an unprivileged user (where that is possible): whatever it
// does to files then stays inside this case's directory.
Out run_tool(const Inv &v) {
  static int fds[2] = {-1, -1};
  int &fd = fds[v.san];
  if (fd < 0) { const char *p = getenv(v.san ? "VERIF_URKEL_SAN" : "VERIF_URKEL_BIN"); fd = p ? open(p, O_RDONLY) : -1; if (fd < 0) { fprintf(stderr, "harness: no tool\n"); _exit(2); } set_cloexec(fd); }
  int po[2], pe[2]; if (pipe(po) || pipe(pe)) { fprintf(stderr, "harness: pipe\n"); _exit(2); }
  std::vector<char *> av{(char *)"urkel"}, ev; for (auto &a : v.args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  std::string e1 = "URKEL_PATH=" + v.env, e2 = "ASAN_OPTIONS=detect_leaks=0:exitcode=99:abort_on_error=0", e3 = "UBSAN_OPTIONS=halt_on_error=1:exitcode=99";
  if (v.has_env) ev.push_back(&e1[0]);
  ev.push_back(&e2[0]); ev.push_back(&e3[0]); ev.push_back(nullptr);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (chdir(v.cwd.c_str())) _exit(120);
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); dup2(po[1], 1); dup2(pe[1], 2); close(po[0]); close(pe[0]);
    signal(SIGPROF, SIG_DFL); signal(SIGPIPE, SIG_DFL); alarm(30); umask(022);
    if (setresgid(65534, 65534, 65534) == 0) { if (setresuid(65534, 65534, 65534)) {} }
    fexecve(fd, av.data(), ev.data());
    _exit(121);
  }
  if (pid < 0) { fprintf(stderr, "harness: fork\n"); _exit(2); }
  close(po[1]); close(pe[1]);
  Out o; struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}}; int left = 2;
  while (left) {
    if (poll(p, 2, 40000) <= 0) { kill(pid, SIGKILL); break; }
    for (int i = 0; i < 2; i++) if (p[i].fd >= 0 && p[i].revents) { char b[65536]; ssize_t n = read(p[i].fd, b, sizeof b); if (n <= 0) { p[i].fd = -1; left--; } else { Bytes &t = i ? o.err : o.out; if (t.size() < (1 << 22)) t.append(b, n); } }
  }
  close(po[0]); close(pe[0]);
  waitpid(pid, &o.status, 0);
  if (WIFEXITED(o.status) && (WEXITSTATUS(o.status) == 120 || WEXITSTATUS(o.status) == 121)) { fprintf(stderr, "harness: cannot run the tool (%d): %s\n", WEXITSTATUS(o.status), v.cwd.c_str()); _exit(2); }
  return o;
}
std::string quote(const std::string &s) { std::string r; for (unsigned char ch : s) { if (ch < 33 || ch > 126 || ch == '\'') r += sfmt("\\x%02x", ch); else r += ch; if (r.size() > 90) { r += sfmt("..(%zu)", s.size()); break; } } return "'" + r + "'"; }

struct Cli {
  Ctx &c; Src &s; std::string w; Keys keys; std::vector<std::string> names; std::map<H32, std::string> by_hash;
  std::map<std::string, DbM> dbs; // by directory below w
  uint64_t n_ok = 0, n_refused = 0, n_commit = 0, n_read = 0;
  Cli(Ctx &c_) : c(c_), s(c_.s), w(c_.dir + "/w") {
    // the scratch directories must be passable for the tool's user, and w is its own
    std::string up = c.dir.substr(0, c.dir.rfind('/')); chmod(up.c_str(), 0711); chmod(c.dir.c_str(), 0711);
    for (auto d : {"", "/x", "/y"}) own(w + d);
    dbs["a"]; dbs["x/b"]; dbs["y"];
    keys = gen_keys(s, 10);
    names = {"foo", "bar"}; for (int i = 0, n = s.below(4); i < n; i++) names.push_back(gen_name());
  }
  void own(const std::string &d) { if (mkdir(d.c_str(), 0755) && errno != EEXIST) { fprintf(stderr, "harness: mkdir %s\n", d.c_str()); _exit(2); } if (chown(d.c_str(), 65534, 65534)) {} }
  std::string gen_name() {
    Bytes n; size_t k = s.chance(1, 6) ? s.below(400) : s.below(20);
    Rng g(s.seed()); bool ascii = s.chance(2, 3);
    for (size_t i = 0; i < k; i++) { unsigned ch = 1 + g.next() % 255; if (ascii) ch = 32 + g.next() % 95; n += (char)ch; }
    if (n.size() && n[0] == '-') n[0] = '+';
    return n;
  }
  std::string hx(const Bytes &b) { std::string h = hex(b.data(), b.size()); if (s.chance(1, 4)) { bool all = s.chance(1, 2); Rng g(s.seed()); for (auto &ch : h) if (all || (g.next() & 1)) ch = toupper(ch); } return h; }
  std::string hx(const H32 &b) { return hx(Bytes((const char *)b.data(), 32)); }
  // Something that is not the hex of exactly n bytes (n < 0: of any bytes)
  std::string bad_hex(const std::string &good, bool fixed) {
    std::string h = good;
    switch (s.below(fixed ? 5 : 2)) {
      case 0: { static const char near[] = "/:@G`gzZx +-.\x7f\x80\xb0\xc1\xff\x01O"; if (h.empty()) h = "00"; size_t at = s.below(h.size()); char ch = s.chance(2, 3) ? near[s.below(sizeof near - 1)] : (char)(1 + s.below(255)); if (isxdigit((unsigned char)ch) || (at == 0 && ch == '-')) ch = 'g'; h[at] = ch; return h; }
      case 1: if (h.size() && s.chance(1, 2)) h.pop_back(); else h += '0'; return h;
      case 2: h.resize(h.size() - 2); return h;
      case 3: h += "00"; return h;
      default: return s.chance(1, 2) ? "" : h.substr(0, 2 * s.below(32));
    }
  }
  // The whole tree below w, except lock files and the named directory.
  void walk(const std::string &rel, std::map<std::string, Bytes> &out, const std::string &skip) {
    if (!skip.empty() && rel == skip) return;
    Files f = dir_files(w + "/" + rel);
    for (auto &x : f) { std::string q = (rel.empty() ? "" : rel + "/") + x.first; if (x.first.back() == '/') { q.pop_back(); if (skip.empty() || q != skip) out[q + "/"]; walk(q, out, skip); } else out[q] = x.second; }
  }
  std::map<std::string, Bytes> tree(const std::string &skip = "") { std::map<std::string, Bytes> t; walk("", t, skip); return t; }
  std::string target_dir(const std::string &t) { return w + "/" + t; }

  void give(const std::string &t) { std::string p = target_dir(t); DIR *h = opendir(p.c_str()); if (!h) return; while (dirent *e = readdir(h)) if (e->d_name[0] != '.') if (chown((p + "/" + e->d_name).c_str(), 65534, 65534)) {} closedir(h); } // without opening the lock file: that would drop this process's lock
  // Look at the database with the library.
  void look(const std::string &t) {
    DbM &d = dbs[t]; if (!d.there) return;
    int e; urkel_t *db = api::open(target_dir(t), &e);
    REQUIRE(db, "after the commands, the database %s cannot be opened: %s", t.c_str(), err_name(e));
    struct G { urkel_t *d; ~G() { api::close(d); } } g{db};
    H32 r = api::root(db); REQUIRE(r == ref_root(d.m), "database %s has root %s instead of %s (%zu records)", t.c_str(), shx(r).c_str(), shx(ref_root(d.m)).c_str(), d.m.size());
    for (auto &kv : d.m) { auto x = api::get(db, kv.first); REQUIRE(x.ok && x.v == kv.second, "database %s: key %s: %s", t.c_str(), kx(kv.first).c_str(), x.ok ? "wrong value" : err_name(x.err)); }
    give(t);
  }

  enum Act { CREATE, DESTROY, INFO, ROOT, GET, INSERT, REMOVE, LIST, PROVE, VERIFY, HELP, N };
  void command() {
    Span sp(s);
    static const char *const nm[] = {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"};
    static const unsigned wt[] = {6, 2, 5, 5, 8, 20, 8, 5, 6, 8, 1};
    Act a = (Act)s.weighted(wt, N);
    // which database, and how it is named
    auto it = dbs.begin(); std::advance(it, s.below(dbs.size())); std::string t = it->first;
    for (int i = 0; i < 2 && !dbs[t].there && a != CREATE; i++) { it = dbs.begin(); std::advance(it, s.below(dbs.size())); t = it->first; }
    DbM &d = dbs[t];
    Inv v; v.san = s.chance(1, 6);
    v.cwd = w; std::string rel = t;
    bool dflt = false;
    auto spell = [&](const std::string &cw) {
      std::string abs = target_dir(t), r;
      switch (s.below(3)) { case 0: r = abs; break; case 1: r = cw == w ? t : abs; break; default: r = cw == w ? "./" + t : cw == w + "/x" ? (t == "x/b" ? "b" : "../" + t) : abs; break; }
      if (s.chance(1, 6)) r += "/"; return r; };
    std::vector<std::pair<int, std::vector<std::string>>> opts; // groups that stay together
    std::string other = target_dir(t == "a" ? "x/b" : "a");
    switch (s.below(4)) {
      case 0: { // the default: where we are
        own(target_dir(t)); v.cwd = target_dir(t); dflt = true; break; }
      case 1: v.cwd = s.chance(1, 2) ? w : w + "/x"; v.has_env = true; v.env = spell(v.cwd); break;
      default: {
        v.cwd = s.chance(1, 2) ? w : w + "/x";
        if (s.chance(1, 3)) { v.has_env = true; v.env = other; } // -p takes precedence
        opts.push_back({0, {s.chance(1, 2) ? "-p" : "--path", spell(v.cwd)}}); break; }
    }
    auto before = tree(), others = tree(t);
    bool was_dir = exists(target_dir(t));
    // what is expected
    bool ok = true, may_create = false; Bytes want; bool check_out = true; DbM next = d; bool opens = true;
    std::vector<std::string> pos;
    H32 root{}; bool with_root = false; const Map *view = &d.m; bool known = true;
    if (a == GET || a == LIST || a == PROVE || a == INFO) if (s.chance(1, 3)) {
      with_root = true;
      if (d.order.empty() || s.chance(1, 6)) { if (s.chance(1, 2)) { root = H32{}; static const Map none; view = &none; } else { root = rnd_key(s.seed() + 99); known = false; } }
      else { root = d.order[s.below(d.order.size())]; view = &d.hist[root]; }
    }
    bool hashed = false; H32 key{}; std::string karg;
    if (a >= GET && a != LIST && a <= VERIFY) {
      hashed = s.chance(1, 2);
      if (hashed) { karg = s.chance(1, 10) ? gen_name() : names[s.below(names.size())]; key = ref_hash(karg.data(), karg.size()); }
      else { key = s.chance(1, 10) ? gen_near(s, keys) : keys[s.below(keys.size())]; karg = hx(key); }
      if (a != INSERT && !view->empty() && s.chance(2, 3)) { // a key that is there
        auto f = view->begin(); std::advance(f, s.below(view->size())); key = f->first;
        hashed = by_hash.count(key) && s.chance(3, 4); karg = hashed ? by_hash[key] : hx(key);
      } else if (hashed) by_hash[key] = karg;
      if (hashed) opts.push_back({0, {s.chance(1, 2) ? "-H" : "--hash"}});
    } else if (s.chance(1, 10)) opts.push_back({0, {"-H"}});
    if (a != HELP) pos.push_back(nm[a]);
    switch (a) {
      case CREATE: next.there = true; break;
      case DESTROY: opens = false; if (!d.there) { ok = false; if (was_dir) { check_out = false; } } else next = DbM(); break;
      case INFO: { size_t sz = 0; for (auto &kv : *view) sz += 32 + kv.second.size(); want = sfmt("Items: %zu\nSize:  %zu\nRoot:  ", view->size(), sz) + hex(ref_root(d.m)) + "\n"; ok = known; break; }
      case ROOT: want = hex(ref_root(d.m)) + "\n"; break;
      case GET: { pos.push_back(karg); auto f = view->find(key); ok = known && f != view->end(); if (ok) want = hex(f->second.data(), f->second.size()) + "\n"; break; }
      case LIST: ok = known; for (auto &kv : *view) want += hex(kv.first) + "\n"; break;
      case PROVE: { pos.push_back(karg); ok = known; if (ok) { Bytes p = ref_encode(ref_prove(*view, key)); want = hex(p.data(), p.size()) + "\n"; } break; }
      case INSERT: { pos.push_back(karg); Bytes val = gen_value(s); if (s.chance(1, 25)) val = Bytes(1024 + s.below(30), 'q'); pos.push_back(hx(val)); ok = val.size() <= VALUE_MAX; if (ok) { next.there = true; next.m[key] = val; } break; }
      case REMOVE: pos.push_back(karg); ok = d.m.count(key); if (ok) next.m.erase(key); break;
      case VERIFY: {
        opens = false; pos.push_back(karg); with_root = true;
        const Map *vm = &d.m; root = ref_root(d.m);
        if (d.order.size() && s.chance(1, 3)) { root = d.order[s.below(d.order.size())]; vm = &d.hist[root]; }
        H32 pk = s.chance(1, 5) ? keys[s.below(keys.size())] : key;
        Bytes p = ref_encode(ref_prove(*vm, pk));
        if (s.chance(1, 6) && p.size()) p[s.below(p.size())] ^= 1 << s.below(8);
        if (s.chance(1, 10)) p.resize(s.below(p.size() + 1));
        if (s.chance(1, 10)) p += (char)s.below(256);
        if (s.chance(1, 10)) root = rnd_key(s.seed());
        pos.push_back(hx(p));
        Proof q; int dec = ref_decode(p, q); int rc = dec == 0 ? 7 : ref_verify(q, key, root);
        if (dec == 2) check_out = false; // stray padding bits: either answer (C05)
        ok = dec != 0 && rc == 0; if (ok && q.type == P_EXISTS) want = hex(q.value.data(), q.value.size()) + "\n";
        break; }
      case HELP: opens = false; check_out = false; opts.push_back({0, {s.chance(1, 2) ? "-h" : "--help"}}); if (s.chance(1, 2)) { pos.push_back(nm[s.below(10)]); } break;
      default: break;
    }
    if (with_root) opts.push_back({0, {s.chance(1, 2) ? "-r" : "--root", hx(root)}});
    if (a == HELP) with_root = false;
    // what may be wrong with the arguments
    bool broken = false; const char *why = "";
    if (a != HELP && s.chance(1, 6)) {
      broken = true;
      switch (s.below(8)) {
        case 0: why = "unknown option"; opts.push_back({0, {s.chance(1, 2) ? "--paths" : s.chance(1, 2) ? "-x" : "-"}}); break;
        case 1: why = "unknown action"; pos[0] = s.chance(1, 2) ? pos[0] + "s" : s.chance(1, 2) ? "ge" : "Insert"; break;
        case 2: why = "no action"; pos.clear(); break;
        case 3: if (pos.size() < 2) { broken = false; break; } why = "missing argument"; pos.resize(pos.size() - 1); if (a == INSERT || a == VERIFY) { if (s.chance(1, 2)) pos.resize(1); } break;
        case 4: if (hashed || pos.size() < 2) { broken = false; break; } why = "bad key"; pos[1] = bad_hex(pos[1], true); break;
        case 5: if (pos.size() < 3) { broken = false; break; } why = "bad hex data"; pos[2] = bad_hex(pos[2], false); break;
        case 6: if (!with_root) { broken = false; break; } why = "bad root"; opts.back().second[1] = bad_hex(opts.back().second[1], true); break;
        default: if (a != VERIFY) { broken = false; break; } why = "no root"; opts.pop_back(); break;
      }
    }
    bool last_opt = !broken && a != HELP && s.chance(1, 40);
    // put the options anywhere
    std::vector<std::vector<std::string>> seq; for (auto &p : pos) seq.push_back({p});
    for (auto &o : opts) seq.insert(seq.begin() + s.below(seq.size() + 1), o.second);
    if (last_opt) { broken = true; why = "option without its argument"; seq.push_back({s.chance(1, 2) ? "-p" : "-r"}); }
    for (auto &g : seq) for (auto &x : g) v.args.push_back(x);
    if (broken) { ok = false; next = d; opens = false; check_out = true; if (a == DESTROY || a == CREATE || a == LIST || !strcmp(why, "no action")) check_out = false; want.clear(); }
    // a missing parent directory
    bool orphan = !broken && a != HELP && a != VERIFY && opts.size() && !opts[0].second.empty() && !dflt && !v.has_env && s.chance(1, 25);
    if (orphan) { for (auto &x : v.args) if (x == "-p" || x == "--path") { *(&x + 1) = w + "/none/db"; } ok = false; next = d; opens = false; check_out = true; }
    // somebody else has it open
    urkel_t *busy = nullptr;
    if (!broken && !orphan && d.there && a != HELP && a != VERIFY && s.chance(1, 25)) { int e; busy = api::open(target_dir(t), &e); REQUIRE(busy, "cannot open %s: %s", t.c_str(), err_name(e)); give(t); ok = false; next = d; }
    if (opens && !d.there && !broken && !busy) may_create = true;
    std::string line; for (auto &x : v.args) line += " " + quote(x);
    Out o = run_tool(v);
    if (busy) { api::close(busy); give(t); }
    int rc = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : -1;
    c.logf("%s$ %surkel%s   -> %d, %zu bytes%s%s%s", v.cwd.substr(c.dir.size()).c_str(), v.has_env ? ("URKEL_PATH=" + v.env + " ").c_str() : "", line.c_str(), rc, o.out.size(), broken ? "  # " : "", why, busy ? " # in use" : "");
    REQUIRE(rc >= 0 && rc != 99, "urkel%s ends with %s: %s", line.c_str(), rc < 0 ? sfmt("signal %d", WTERMSIG(o.status)).c_str() : "a sanitizer report", o.err.substr(0, 1500).c_str());
    if (a == HELP) { REQUIRE(rc == 0 && o.out.find("Usage") != Bytes::npos, "help: exit %d", rc); }
    else if (may_create && !ok) REQUIRE(rc != 0, "urkel%s: exit 0 on a database without that", line.c_str());
    else if (may_create && rc != 0 && a != CREATE && a != INSERT) { ok = false; next = d; want.clear(); } // refusing to create one is fine too
    else if (a == DESTROY && !d.there && was_dir && !broken && !busy && !orphan) { // an empty directory that never was a database
      if (rc == 0) REQUIRE(!exists(target_dir(t)), "destroy: exit 0, but the directory is there"); }
    else if (a == VERIFY && !check_out && !broken) {}
    else REQUIRE((rc == 0) == ok, "urkel%s: exit %d instead of %s (%s)%s", line.c_str(), rc, ok ? "0" : "a failure", o.err.substr(0, 200).c_str(), busy ? " while the database is in use" : why);
    if (check_out && a != HELP) { if (!ok) want.clear(); REQUIRE(o.out == want, "urkel%s prints %zu bytes %s instead of %zu bytes %s", line.c_str(), o.out.size(), quote(o.out).c_str(), want.size(), quote(want).c_str()); }
    // effects
    bool changed_ok = ok && (a == CREATE || a == DESTROY || a == INSERT || a == REMOVE);
    if (a == DESTROY && ok) REQUIRE(!exists(target_dir(t)), "destroy: the directory is still there");
    if (dflt && !exists(target_dir(t)) && s.chance(1, 2)) own(target_dir(t));
    auto after = tree(), oafter = tree(t);
    for (auto &x : after) if (x.first.size() >= 4 && x.first.substr(x.first.size() - 4) == "lock") REQUIRE(false, "urkel%s leaves %s behind", line.c_str(), x.first.c_str());
    std::string df = files_diff(others, oafter); REQUIRE(df.empty(), "urkel%s: outside of the database: %s", line.c_str(), df.c_str());
    if (!changed_ok && !may_create && !(a == DESTROY && !d.there)) { df = files_diff(before, after); REQUIRE(df.empty(), "urkel%s (%s): %s", line.c_str(), ok ? "a reading action" : "a failing action", df.c_str()); }
    if (may_create) next.there = exists(target_dir(t) + "/meta");
    d = next;
    if (ok && (a == INSERT || a == REMOVE)) { H32 r = ref_root(d.m); if (!d.hist.count(r)) { d.hist[r] = d.m; d.order.push_back(r); } }
    if (changed_ok || may_create || s.chance(1, 8)) look(t);
    if (ok) n_ok++; else n_refused++;
    if (ok && (a == INSERT || a == REMOVE)) n_commit++;
    if (ok && (a == GET || a == LIST || a == PROVE || a == VERIFY) && want.size() > 1) n_read++;
    if (broken) c.label(std::string("refused: ") + why); else c.label(std::string(a == HELP ? "help" : nm[a]) + (ok ? "" : " (failing)"));
    if (busy) c.label("while in use");
    if (ok && with_root && a != VERIFY) c.label("at a historical root");
  }
};

void commands(Ctx &c) {
  judged(c, [&] {
    Cli x(c);
    size_t n = 6 + c.s.below(c.thorough ? 60 : 30);
    for (size_t i = 0; i < n; i++) x.command();
    for (auto &d : x.dbs) x.look(d.first);
    c.st.sub += n;
    c.nontrivial = x.n_commit >= 2 && x.n_read >= 1 && x.n_refused >= 1;
  });
}

// The examples of the documentation, in every way of naming the database.
void readme(Ctx &c) {
  Src &s = c.s; Cli x(c);
  Inv v; v.san = s.chance(1, 2);
  unsigned how = c.idx % 4; std::string dbd = x.w + "/db"; x.own(dbd); v.cwd = how == 0 ? dbd : x.w;
  std::vector<std::string> pre; if (how == 1) pre = {"-p", "db"}; if (how == 2) { v.has_env = true; v.env = "db"; } if (how == 3) pre = {"--path", dbd};
  static const char R1[] = "1da2776eaa254ef65aeeee1f37f61c06bac2e82e221d37da21190191218f6631\n", R2[] = "497b751637ff244ab969a965f8d9dc7623f18d649d012276dfb317b0e38b9bec\n", R0[] = "0000000000000000000000000000000000000000000000000000000000000000\n";
  static const char P[] = "03c00100800280a6386fa1781a92e3905f718d4e0ea0d757abe962eefdd52a23d2ad6e1409fd8a0400deadbeef";
  std::string r2(R2, 64);
  struct L { std::vector<std::string> a; std::string want; } ls[] = {
    {{"create"}, ""}, {{"root"}, R0}, {{"insert", "foo", "deadbeef", "-H"}, ""}, {{"root"}, R1}, {{"insert", "bar", "01020304", "-H"}, ""}, {{"root"}, R2}, {{"get", "bar", "-H"}, "01020304\n"},
    {{"prove", "foo", "-H"}, std::string(P) + "\n"}, {{"verify", "foo", "-H", P, "--root", r2}, "deadbeef\n"}, {{"get", "bar", "-H", "-r", r2}, "01020304\n"},
    {{"remove", "bar", "-H"}, ""}, {{"root"}, R1}, {{"get", "bar", "-H", "-r", r2}, "01020304\n"}, {{"remove", "foo", "-H"}, ""}, {{"root"}, R0}, {{"destroy"}, ""}};
  for (auto &l : ls) {
    v.args = pre; for (auto &a : l.a) v.args.push_back(a);
    Out o = run_tool(v); std::string line; for (auto &a : v.args) line += " " + a; c.logf("$ urkel%s", line.c_str());
    REQUIRE(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0, "urkel%s fails: %s", line.c_str(), o.err.substr(0, 500).c_str());
    REQUIRE(o.out == l.want, "urkel%s prints %s instead of %s", line.c_str(), quote(o.out).c_str(), quote(l.want).c_str());
  }
  REQUIRE(!exists(dbd), "destroy: the directory is still there");
  c.st.sub += sizeof ls / sizeof *ls; c.nontrivial = true;
}
// Every character, in either half of a byte of a key, a value and a root: a digit or a refusal.
void characters(Ctx &c) {
  Src &s = c.s; Cli x(c); std::string dbd = x.w + "/db"; x.own(dbd);
  unsigned char ch = 1 + c.idx % 255; bool digit = isxdigit(ch); bool san = s.chance(1, 4);
  static const Bytes lower = "0123456789abcdef";
  auto run = [&](std::vector<std::string> a, bool ok, const Bytes *want) {
    Inv v; v.cwd = dbd; v.san = san; v.args = a; Out o = run_tool(v); int rc = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : -1;
    std::string line; for (auto &y : a) line += " " + quote(y); c.logf("$ urkel%s -> %d", line.c_str(), rc); c.st.sub++;
    REQUIRE(rc >= 0 && rc != 99, "urkel%s ends badly: %s", line.c_str(), o.err.substr(0, 1000).c_str());
    REQUIRE((rc == 0) == ok, "urkel%s: exit %d, the character %s a digit", line.c_str(), rc, digit ? "is" : "is not");
    if (want) REQUIRE(o.out == *want, "urkel%s prints %s instead of %s", line.c_str(), quote(o.out).c_str(), quote(*want).c_str());
  };
  Bytes none;
  run({"create"}, true, nullptr);
  Map m; H32 base = x.keys[0]; Bytes v0 = "\x5a"; m[base] = v0;
  run({"insert", hex(base), "5a"}, true, &none);
  auto put = [&](std::string h, size_t at) { h[at] = ch; return h; };
  auto bytes = [&](const std::string &h) { Bytes r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(lower.find(tolower(h[i])) << 4 | lower.find(tolower(h[i + 1]))); return r; };
  for (int half = 0; half < 2; half++) {
    // a key
    size_t at = 2 * s.below(32) + half; if (at == 0 && ch == '-') at = 2;
    std::string k = put(hex(x.keys[s.below(x.keys.size())]), at);
    if (digit) { Bytes kb = bytes(k); H32 kk; memcpy(kk.data(), kb.data(), 32); m[kk] = "\x01\x02"; }
    run({"insert", k, "0102"}, digit, &none);
    Bytes want = digit ? "0102\n" : "";
    run({"get", k}, digit, &want);
    // a value
    std::string v = hex((const uint8_t *)x.keys[0].data(), 1 + s.below(8)); size_t vat = 2 * s.below(v.size() / 2) + half; if (vat == 0 && ch == '-') { v += "00"; vat = 2; }
    v = put(v, vat);
    if (digit) { m[base] = bytes(v); }
    run({"insert", hex(base), v}, digit, &none);
    want = hex((const uint8_t *)m[base].data(), m[base].size()) + "\n";
    run({"get", hex(base)}, true, &want);
    // a root
    H32 r = ref_root(m); std::string rt = hex(r); size_t rat = 2 * s.below(32) + half;
    if (digit) { std::string up = rt; for (auto &y : up) if (tolower(y) == tolower(ch)) y = ch; run({"get", hex(base), "-r", up}, true, &want); }
    else run({"get", hex(base), "-r", put(rt, rat)}, false, &none);
    // a proof, of which nothing is stored
    Bytes p = ref_encode(ref_prove(m, base)); std::string ph = hex((const uint8_t *)p.data(), p.size());
    if (digit) { for (auto &y : ph) if (tolower(y) == tolower(ch)) y = ch; run({"verify", hex(base), ph, "-r", rt}, true, &want); }
    else { size_t pat = 2 * s.below(p.size()) + half; if (pat == 0 && ch == '-') pat = 2; run({"verify", hex(base), put(ph, pat), "-r", rt}, false, &none); }
  }
  Bytes want = hex(ref_root(m)) + "\n"; run({"root"}, true, &want);
  c.label(digit ? "a digit" : "not a digit"); c.nontrivial = true;
}
// Stored data that cannot be read: what fails in the library fails in the tool.
void unreadable(Ctx &c) {
  Src &s = c.s; Cli x(c); std::string dbd = x.w + "/db"; x.own(dbd);
  Keys ks = gen_keys(s, 40); Map m;
  {
    Limits lim; urkel_verif_max_file_size = s.range(1023, 4000);
    urkel_t *db = api::open(dbd); REQUIRE(db, "open");
    for (size_t i = 0, n = 1 + s.below(4); i < n; i++) {
      Changes ch = gen_changes(s, ks, m, 30, 10); urkel_tx_t *t = api::tx_create(db); REQUIRE(t, "begin");
      for (auto &y : ch) { if (y.del) api::tx_remove(t, y.key); else api::tx_insert(t, y.key, y.v); }
      REQUIRE(api::tx_commit(t).ok, "commit"); api::tx_destroy(t);
    }
    api::close(db);
  }
  auto last = [&] { uint32_t n = 0; for (auto &f : dir_files(dbd)) if (is_data_name(f.first)) n = std::max<uint32_t>(n, strtoul(f.first.c_str(), 0, 10)); return n; };
  uint32_t n = last(); c.logf("%u data files, %zu records", n, m.size());
  for (uint32_t i = 1; i < n; i++) if (s.chance(1, 2)) { Bytes b; std::string p = dbd + "/" + data_name(i); read_file(p, b); size_t k = s.below(b.size() + 1); b.resize(k); write_file(p, b); c.logf("file %u cut to %zu", i, k); }
  // what the library says
  struct Ans { bool ok; Bytes out; };
  std::map<std::string, Ans> ans;
  {
    urkel_t *db = api::open(dbd); if (!db) { c.label("does not open"); return; }
    Ans l{true, ""}, inf{true, ""}; size_t items = 0, size = 0;
    for (int withv = 0; withv < 2; withv++) {
      urkel_iter_t *it = api::iterate(db); Ans &a = withv ? inf : l;
      if (!it) { a.ok = false; continue; }
      for (size_t g = 0; g <= m.size(); g++) { api::It r = api::iter_next(it, !withv); if (!r.ok) { a.ok = r.err == URKEL_EITEREND; break; } if (!withv) a.out += hex(r.key) + "\n"; else { items++; size += 32 + r.v.size(); } }
      api::iter_destroy(it);
    }
    inf.out = sfmt("Items: %zu\nSize:  %zu\nRoot:  ", items, size) + hex(api::root(db)) + "\n";
    ans["list"] = l; ans["info"] = inf;
    for (size_t i = 0; i < 4; i++) {
      const H32 &k = ks[s.below(ks.size())]; auto g = api::get(db, k), p = api::prove(db, k);
      ans["get " + hex(k)] = {!!g.ok, g.ok ? hex(g.v.data(), g.v.size()) + "\n" : ""}; ans["prove " + hex(k)] = {!!p.ok, p.ok ? hex(p.v.data(), p.v.size()) + "\n" : ""};
    }
    api::close(db);
  }
  x.give("db"); bool any = false;
  for (auto &a : ans) {
    Inv v; v.cwd = dbd; v.san = s.chance(1, 6); size_t sp = a.first.find(' '); v.args = {a.first.substr(0, sp)}; if (sp != std::string::npos) v.args.push_back(a.first.substr(sp + 1));
    Out o = run_tool(v); int rc = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : -1;
    c.logf("$ urkel %s -> %d", a.first.c_str(), rc);
    REQUIRE(rc >= 0 && rc != 99, "urkel %s ends badly: %s", a.first.c_str(), o.err.substr(0, 1000).c_str());
    REQUIRE((rc == 0) == a.second.ok, "urkel %s: exit %d, the library %s", a.first.c_str(), rc, a.second.ok ? "succeeds" : "fails");
    if (a.second.ok) REQUIRE(o.out == a.second.out, "urkel %s prints %s instead of %s", a.first.c_str(), quote(o.out).c_str(), quote(a.second.out).c_str());
    any |= !a.second.ok && a.first.size() < 10;
  }
  c.st.sub += ans.size(); c.nontrivial = any;
}
} // namespace
extern const Prop the_prop = {"C21", "at least two commands committed, one read stored data and one was refused (or: an iteration met unreadable data; the documented session, per way of naming the database; a character tried in every argument)", {
  {"documented session", readme, 8, 40, 8},
  {"every character", characters, 255, 1020, 8},
  {"unreadable data", unreadable, 150, 4000, 8},
  {"commands", commands, 1300, 40000, 8},
}};
