// The library in processes of every kind: nothing around it matters, and nothing around it changes.
#include "solo.hh"
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <dirent.h>
#include <sanitizer/common_interface_defs.h>
using namespace solo;
extern char **environ;

namespace {
const int errnos[] = {EINTR, EAGAIN, ENOENT, EEXIST, EINVAL, ENOMEM, EIO, ENOSYS, EBADF, EACCES, ENOSPC, ERANGE};
uint64_t tick_; int junk_errno;
void enter() { if (junk_errno) errno = junk_errno > 0 ? junk_errno : errnos[mix64(tick_++) % 12]; }
// Calls interrupted by a signal before anything was done, and short counts.
unsigned intr_den; uint64_t intr_rng, intrs; int intr_row;
Action interrupt(const Call &x) {
  if (x.sc == S_OPEN || x.sc == S_READ || x.sc == S_PREAD || x.sc == S_WRITE || x.sc == S_PWRITE) {
    uint64_t r = mix64(intr_rng++);
    if (r % intr_den == 0 && intr_row < 3) { intr_row++; intrs++; if (x.sc != S_OPEN && r >> 20 & 1 && x.len > 1) return {Action::PARTIAL, 0, (size_t)(r >> 30) % x.len}; return {Action::ERR, EINTR, 0}; }
    intr_row = 0;
  }
  return {Action::PASS, 0, 0};
}
volatile sig_atomic_t alarms;
void on_alarm(int) { int e = errno; alarms = alarms + 1; errno = EDOM; errno = e; }

std::string environment() { std::string r; for (char **e = environ; e && *e; e++) r += std::string(*e) + "\n"; return r; }
size_t tasks() { size_t n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return 0; while (dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
std::string cwd_id() { struct stat st; return stat(".", &st) ? "none" : sfmt("%lu:%lu", (unsigned long)st.st_dev, (unsigned long)st.st_ino); }
std::string dispositions() { std::string r; for (int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (!sigaction(i, nullptr, &a)) r += sfmt("%d:%p:%x ", i, (void *)a.sa_handler, a.sa_flags); } return r; }
std::string limits_() { std::string r; for (int i = 0; i < 16; i++) { rlimit l; if (!getrlimit((__rlimit_resource)i, &l)) r += sfmt("%d:%lx:%lx ", i, (long)l.rlim_cur, (long)l.rlim_max); } return r; }
std::string mask() { sigset_t m; pthread_sigmask(SIG_SETMASK, nullptr, &m); std::string r; for (int i = 1; i < 65; i++) r += sigismember(&m, i) == 1 ? '1' : '0'; return r; }

// The state of the process, put back in the end.
struct Around {
  int saved[3] = {-1, -1, -1}; int kind[3] = {}; int home = -1; mode_t um; sigset_t old_mask; struct sigaction old_alrm; bool timer = false; std::string env0, loc0; std::vector<std::string> env_list; int round0;
  std::string dir; std::string cwd, msk, disp, lims, env, loc; mode_t um1; int round1; size_t n_tasks; long r_random, r_drand;
  int off[3] = {}; Ctx *cx = nullptr; FILE *log0 = nullptr;
  void begin(Ctx &c, const std::string &d) {
    Src &s = c.s; dir = d; mkdir(d.c_str(), 0755);
    home = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); um = umask(0); umask(um); pthread_sigmask(SIG_SETMASK, nullptr, &old_mask); sigaction(SIGALRM, nullptr, &old_alrm); round0 = fegetround(); loc0 = setlocale(LC_ALL, nullptr); for (char **e = environ; e && *e; e++) env_list.push_back(*e);
    buf_error[0] = 0; buf_page = s.chance(2, 3); if (buf_page) c.label("buffers in pages of their own");
    // standard descriptors: closed, or files with something in them
    for (int i = 0; i < 3; i++) saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 200 + i);
    __sanitizer_set_report_fd((void *)(long)saved[2]);
    cx = &c; log0 = c.log; if (c.log) { fflush(c.log); int fd = fcntl(saved[2], F_DUPFD_CLOEXEC, 300); if (fd >= 0) { c.log = fdopen(fd, "a"); setvbuf(c.log, nullptr, _IONBF, 0); } }
    std::string what;
    for (int i = 0; i < 3; i++) {
      kind[i] = s.below(3) == 0; close(i); if (kind[i]) { what += sfmt(" %d", i); }
    }
    for (int i = 0; i < 3; i++) if (!kind[i]) {
      std::string f = dir + "/std" + std::to_string(i); write_file(f, "0123456789"); int fd = open(f.c_str(), i ? O_WRONLY : O_RDONLY); if (fd != i) { dup2(fd, i); close(fd); } off[i] = s.below(11); lseek(i, off[i], SEEK_SET);
    }
    if (!what.empty()) { c.logf("descriptors closed:%s", what.c_str()); c.label("standard descriptors closed"); }
    junk_errno = s.chance(1, 2) ? -1 : s.chance(1, 2) ? errnos[s.below(12)] : 0; tick_ = s.below(1000); lib_enter = enter; if (junk_errno) c.logf("errno before each call: %s", junk_errno < 0 ? "all kinds" : strerror(junk_errno));
    static const mode_t ums[] = {0, 0022, 0027, 0077}; umask(ums[s.below(4)]);
    if (s.chance(1, 4)) { intr_den = s.pickl({2, 4, 15, 60}); intr_rng = s.seed(); intr_row = 0; intrs = 0; sys_policy = interrupt; c.logf("one of %u system calls is interrupted or short", intr_den); c.label("interrupted system calls"); }
    if (s.chance(1, 4)) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_alarm; sigaction(SIGALRM, &a, nullptr); itimerval t{}; t.it_interval.tv_usec = t.it_value.tv_usec = s.pickl({100, 500, 3000}); setitimer(ITIMER_REAL, &t, nullptr); timer = true; alarms = 0; c.logf("signals every %ld us", (long)t.it_value.tv_usec); c.label("signals"); }
    else if (s.chance(1, 3)) { sigset_t m; sigfillset(&m); for (int i : {SIGPROF, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigdelset(&m, i); pthread_sigmask(SIG_BLOCK, &m, nullptr); c.logf("signals blocked"); c.label("signals blocked"); }
    switch (s.below(5)) {
      case 0: clearenv(); c.logf("no environment"); break;
      case 1: setenv("PWD", "/nonexistent", 1); setenv("HOME", "/nonexistent", 1); setenv("TMPDIR", "/nonexistent", 1); c.logf("PWD is wrong"); break;
      case 2: setenv("LC_ALL", "C.UTF-8", 1); setlocale(LC_ALL, ""); break;
      default: break; }
    if (s.chance(1, 3)) { static const int rm[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; fesetround(rm[s.below(3)]); c.logf("floating point rounds another way"); }
    // what must stay
    srandom(4711); srand48(4711);
    note();
    n_tasks = tasks(); env = environment(); loc = setlocale(LC_ALL, nullptr); lims = limits_(); disp = dispositions();
  }
  void note() { cwd = cwd_id(); msk = mask(); um1 = umask(0); umask(um1); round1 = fegetround(); }
  void step(const std::string &what) {
    REQUIRE(!buf_error[0], "%s: %s", what.c_str(), buf_error);
    std::string w = cwd_id(); REQUIRE(w == cwd, "%s changes the current directory of the process", what.c_str());
    mode_t u = umask(um1); REQUIRE(u == um1, "%s changes the umask of the process from %03o to %03o", what.c_str(), um1, u);
    std::string m = mask(); REQUIRE(m == msk, "%s changes the signals blocked by the thread", what.c_str());
    REQUIRE(fegetround() == round1, "%s changes the rounding mode", what.c_str());
  }
  void finish() {
    REQUIRE(environment() == env, "the environment of the process changed"); REQUIRE(loc == setlocale(LC_ALL, nullptr), "the locale changed"); REQUIRE(lims == limits_(), "the resource limits changed"); REQUIRE(disp == dispositions(), "the handlers of signals changed");
    struct random_data rd; char st[128]; memset(&rd, 0, sizeof rd); initstate_r(1, st, sizeof st, &rd); srandom_r(4711, &rd); int32_t e; random_r(&rd, &e); long g = random(); REQUIRE(g == e, "the numbers random() and rand() give to the process changed");
    drand48_data dd; srand48_r(4711, &dd); long f; lrand48_r(&dd, &f); REQUIRE(lrand48() == f, "the numbers drand48() gives to the process changed");
    for (int i = 0; i < 3; i++) {
      struct stat st; if (kind[i]) { REQUIRE(fstat(i, &st) != 0, "descriptor %d stays open", i); continue; }
      REQUIRE(fstat(i, &st) == 0, "standard descriptor %d was closed", i); REQUIRE(st.st_size == 10 && lseek(i, 0, SEEK_CUR) == off[i], "a call reads or writes standard descriptor %d", i);
      Bytes b; REQUIRE(read_file(dir + "/std" + std::to_string(i), b) && b == "0123456789", "a call writes to standard descriptor %d", i);
    }
    // a thread that was joined may take a moment to go
    for (int k = 0; k < 200 && tasks() != n_tasks; k++) usleep(1000);
    REQUIRE(tasks() == n_tasks, "a thread stays behind"); int w; REQUIRE(waitpid(-1, &w, WNOHANG) == -1 && errno == ECHILD, "a child process stays behind");
    if (!timer) { itimerval t; getitimer(ITIMER_REAL, &t); REQUIRE(!t.it_value.tv_sec && !t.it_value.tv_usec, "an alarm was set"); }
  }
  ~Around() {
    if (home < 0) return;
    if (cx && cx->log != log0) { fclose(cx->log); cx->log = log0; }
    if (timer) { itimerval t{}; setitimer(ITIMER_REAL, &t, nullptr); }
    lib_enter = nullptr; sys_policy = nullptr; buf_page = false; fesetround(round0); setlocale(LC_ALL, loc0.c_str()); umask(um);
    clearenv(); for (auto &e : env_list) { size_t q = e.find('='); setenv(e.substr(0, q).c_str(), e.substr(q + 1).c_str(), 1); }
    for (int i = 0; i < 3; i++) { if (saved[i] >= 0) { dup2(saved[i], i); close(saved[i]); } else close(i); }
    __sanitizer_set_report_fd((void *)2L);
    if (fchdir(home)) {} close(home); sigaction(SIGALRM, &old_alrm, nullptr); pthread_sigmask(SIG_SETMASK, &old_mask, nullptr);
  }
};

// Calls that fail, whatever the process looks like.
void refused(Ctx &c, Set &t, const std::string &db) {
  Src &s = c.s; int e; std::string d = c.dir + "/refused", err;
  switch (s.below(7)) {
    case 0: { urkel_t *x = api::open(d + "/no/such/place", &e); REQUIRE(!x && e == URKEL_EBADOPEN, "a database below a missing directory: %s", x ? "opened" : err_name(e)); break; }
    case 1: { mkdir(d.c_str(), 0755); write_file(d + "/file", "x"); urkel_t *x = api::open(d + "/file", &e); REQUIRE(!x && e == URKEL_EBADOPEN, "a file opened as a database: %s", x ? "opened" : err_name(e)); break; }
    case 2: { urkel_t *x = api::open("/" + std::string(5000, 'x'), &e); REQUIRE(!x && e == URKEL_EBADOPEN, "a path too long: %s", x ? "opened" : err_name(e)); break; }
    case 3: { mkdir(d.c_str(), 0755); std::string g = d + "/gap"; mkdir(g.c_str(), 0755); write_file(g + "/0000000002", Bytes(100, 'x')); urkel_t *x = api::open(g, &e); REQUIRE(!x && e == URKEL_EBADOPEN, "a damaged database: %s", x ? "opened" : err_name(e)); break; }
    case 4: { api::R r = api::destroy(d + "/nothing"); REQUIRE(!r.ok && r.err == URKEL_EBADOPEN, "destroying nothing: %s", r.ok ? "ok" : err_name(r.err)); break; }
    case 5: { Bytes junk(s.below(80), 0); for (auto &ch : junk) ch = (char)s.below(256); api::V v = api::verify(junk, t.keys[0], t.keys[0]); REQUIRE(!v.ok, "junk verifies"); break; }
    default: { H32 h = api::hash(db.data(), db.size()), g; ref_blake2b(g.data(), 32, nullptr, 0, (const uint8_t *)db.data(), db.size()); REQUIRE(h == g, "a wrong hash"); } }
}

void around(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; Set t(c, 1, c.thorough ? 150 : 60); Player &p = t.among[0]; std::string abs = p.path;
    size_t hops = 0, forks = 0, extra = 0, moved = 0; uint64_t n_intr = 0;
    {
      Around a; bool rel = s.chance(1, 3), gone = !rel && s.chance(1, 4), hop = s.chance(1, 3), fk = s.chance(1, 8); std::string base = abs.substr(0, abs.rfind('/'));
      if (rel) { p.path = s.chance(1, 2) ? abs.substr(abs.rfind('/') + 1) : "./" + abs.substr(abs.rfind('/') + 1); c.logf("the path is relative"); c.label("relative path, other directory later"); }
      std::string other = c.dir + "/other", lost = c.dir + "/lost"; mkdir(other.c_str(), 0755);
      a.begin(c, c.dir + "/std");
      if (gone) { mkdir(lost.c_str(), 0755); if (chdir(lost.c_str()) || rmdir(lost.c_str())) throw Skip{"chdir"}; c.logf("the current directory was removed"); c.label("current directory removed"); a.note(); }
      while (!p.done()) {
        K k = p.p.steps[p.at].k; std::string what = p.describe();
        if (rel) { // found when opened, wherever the process goes then
          const char *to = k == OPEN || k == DESTROY ? base.c_str() : other.c_str(); if (chdir(to)) throw Skip{"chdir"}; moved++;
          if (k != OPEN && k != DESTROY && s.chance(1, 10)) { mkdir(lost.c_str(), 0755); if (chdir(lost.c_str()) || rmdir(lost.c_str())) throw Skip{"chdir"}; }
          a.note(); }
        if (hop && !p.it && k != HOLD && s.chance(1, 2)) { std::exception_ptr e; std::thread th([&] { try { p.step(); a.step(what); } catch (...) { e = std::current_exception(); } }); th.join(); hops++; if (e) std::rethrow_exception(e); }
        else p.step();
        a.step(what);
        if (s.chance(1, 10)) { refused(c, t, abs); a.step("a refused call"); extra++; }
        if (fk && !p.it && s.chance(1, 12)) { // a child comes and goes
          bool ex = s.chance(1, 2); pid_t pid = fork(); if (!pid) { itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); if (ex) { execl("/bin/true", "true", (char *)nullptr); } for (int i = 3; i < 64; i++) close(i); _exit(0); }
          int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} forks++;
          if (p.db) { fflush(nullptr); pid = fork(); if (!pid) { lib_enter = nullptr; sys_policy = nullptr; itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); int e; urkel_t *x = api::open(abs, &e); _exit(x ? 7 : e == URKEL_EBADOPEN ? 0 : 8); }
            st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "after a child process came and went, another process %s", WIFEXITED(st) && WEXITSTATUS(st) == 7 ? "opens the open database" : "is refused in another way"); } }
      }
      p.quit(); a.finish(); n_intr = intrs;
    }
    t.judge("in a process in another state");
    c.nontrivial = p.roots.size() >= 1; c.label("calls in a thread of their own", hops); c.label("children", forks); c.label("refused calls", extra); c.label("system calls interrupted", n_intr); c.label("changes of directory", moved); intrs = 0;
  });
}
} // namespace
extern const Prop the_prop = {"C33", "the program commits at least once", {{"around", around, 9000, 300000, 8}}};
