// What the library creates is nobody else's: permissions of files, descriptors kept from other programs.
#include "world.hh"
#include "util.hh"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
char leaked[256]; uint64_t used;
// A descriptor in use that another program would inherit.
void after(const Call &x, long ret) {
  if (x.fd < 0 || ret < 0) return;
  switch (x.sc) { case S_READ: case S_PREAD: case S_WRITE: case S_PWRITE: case S_FSTAT: case S_FTRUNCATE: case S_MMAP: case S_FSYNC: break; default: return; }
  int e = errno; long f = syscall(SYS_fcntl, x.fd, F_GETFD); used++;
  if (f >= 0 && !(f & FD_CLOEXEC) && !leaked[0]) snprintf(leaked, sizeof leaked, "%s of %s", sc_name[x.sc], x.file ? x.file : "?");
  errno = e;
}
struct Umask { mode_t old; explicit Umask(mode_t m) : old(umask(m)) {} ~Umask() { umask(old); } };

struct Modes { // preset: permissions somebody gave, and the file (one without commits may be made anew)
  Ctx &c; World &w; mode_t um; std::map<std::string, std::pair<mode_t, ino_t>> preset; size_t looked = 0, created = 0;
  void look() {
    REQUIRE(!leaked[0], "a descriptor is used that programs started meanwhile inherit: %s", leaked);
    struct stat st; if (lstat(w.path.c_str(), &st)) return;
    auto chk = [&](const std::string &n, const struct stat &st, bool dir) {
      mode_t m = st.st_mode & 07777; looked++;
      auto it = preset.find(n); if (it != preset.end() && (dir || it->second.second == st.st_ino)) { REQUIRE(m == it->second.first, "%s had the permissions %04o, now %04o", n.c_str(), it->second.first, m); return; }
      created++;
      REQUIRE(!(m & 0007), "%s is open to everybody: permissions %04o, umask %04o", n.c_str(), m, um);
      REQUIRE(!(m & 0020), "%s can be written by the group: permissions %04o, umask %04o", n.c_str(), m, um);
      REQUIRE(!(m & 07000), "%s has the permissions %04o", n.c_str(), m);
      REQUIRE(dir || !(m & 0111), "%s can be executed: permissions %04o", n.c_str(), m);
      REQUIRE((m & 0600) == 0600, "%s cannot be used by its owner: permissions %04o, umask %04o", n.c_str(), m, um);
      REQUIRE(!(m & um), "%s ignores the umask %04o: permissions %04o", n.c_str(), um, m);
    };
    chk("the directory", st, true);
    DIR *d = opendir(w.path.c_str()); if (!d) return;
    while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; if (lstat((w.path + "/" + n).c_str(), &st) == 0) chk(n, st, false); }
    closedir(d);
    // descriptors
    d = opendir("/proc/self/fd"); if (!d) return;
    std::string bad;
    while (dirent *e = readdir(d)) { char b[4200]; ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1); if (k <= 0) continue; b[k] = 0; if (strncmp(b, w.path.c_str(), w.path.size())) continue; long f = syscall(SYS_fcntl, atoi(e->d_name), F_GETFD); looked++; if (f >= 0 && !(f & FD_CLOEXEC)) bad = b; }
    closedir(d); REQUIRE(bad.empty(), "programs started by the process inherit a descriptor of %s", bad.substr(bad.rfind('/') + 1).c_str());
  }
};

void body(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; static const mode_t ums[] = {0, 0002, 0007, 0022, 0027, 0077}; mode_t um = ums[s.below(6)]; Umask u(um); leaked[0] = 0; used = 0;
    World w(c, 0); w.limits(2, 3); w.keys = gen_keys(s, 24); w.max_hist = 8; c.logf("umask %04o", um);
    Modes m{c, w, um, {}};
    if (s.chance(1, 3)) { mode_t d = s.chance(1, 2) ? 0755 : 0700; mkdir(w.path.c_str(), 0700); chmod(w.path.c_str(), d); m.preset["the directory"] = {d, 0}; c.logf("the directory is there, %04o", d); }
    sys_after = after; struct Off { ~Off() { sys_after = nullptr; } } off;
    w.w[O_COMMIT] = 14; w.w[O_REOPEN] = 4; w.w[O_BURST] = 5; w.w[O_FULL] = 1; w.w[O_PROVE] = 1; w.w[O_ITER] = 1; w.w[O_REMOVE_ALL] = 1; w.w[O_INJECT] = 2;
    w.open(); m.look();
    w.after = [&](const char *) { m.look(); };
    size_t n = 8 + s.below(c.thorough ? 60 : 30);
    for (size_t i = 0; i < n; i++) {
      w.step();
      if (s.chance(1, 20)) { // the owner's own choice of permissions stays
        w.close(); DIR *d = opendir(w.path.c_str()); mode_t p = s.chance(1, 2) ? 0600 : 0644; if (d) { while (dirent *e = readdir(d)) { std::string f = e->d_name; if (is_data_name(f) || f == "meta") { if (s.chance(1, 2)) { struct stat st; chmod((w.path + "/" + f).c_str(), p); if (!lstat((w.path + "/" + f).c_str(), &st)) m.preset[f] = {p, st.st_ino}; } } } closedir(d); }
        c.logf("permissions set to %04o by the owner", p); w.open(); m.look(); c.label("permissions set by the owner"); }
    }
    if (s.chance(1, 12)) { // another program
      int p[2]; if (pipe(p)) throw Skip{"pipe"}; fflush(nullptr); pid_t pid = fork();
      if (pid == 0) { dup2(p[1], 1); close(p[0]); close(p[1]); signal(SIGPROF, SIG_DFL); execl("/bin/ls", "ls", "-l", "/proc/self/fd", (char *)nullptr); _exit(9); }
      close(p[1]); Bytes o; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, k); close(p[0]); int st; if (pid > 0) waitpid(pid, &st, 0);
      REQUIRE(o.find(w.path) == Bytes::npos, "another program started by the process has descriptors of the database: %s", o.c_str()); c.label("other programs started"); }
    w.after = nullptr; w.close(); m.look();
    REQUIRE(!leaked[0], "a descriptor is used that programs started meanwhile inherit: %s", leaked);
    c.nontrivial = w.n.commits >= 1 && m.created >= 4 && used >= 5; c.st.sub += m.looked; c.label("files and descriptors looked at", m.looked);
  });
}
} // namespace
extern const Prop the_prop = {"C32", "at least one commit, four looks at permissions of things the library made and five uses of a descriptor", {{"private", body, 9000, 300000, 8}}};
