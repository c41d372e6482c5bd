#include "wrap.hh"
#include "engine.hh"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

const char *const sc_name[S_N] = {"open", "close", "read", "pread", "write", "pwrite", "ftruncate", "truncate", "unlink", "rename", "mkdir", "rmdir",
  "stat", "fstat", "access", "opendir", "readdir", "closedir", "fsync", "fcntl", "mmap", "munmap", "getcwd", "lseek"};

Policy sys_policy;
void (*sys_after)(const Call &, long);
__thread int in_lib;
void (*lib_enter)();
void lib_left() { if (sched_hooks) sched_hooks->point("return"); }
uint64_t rand_seed;
bool track_memory;
const SchedHooks *volatile sched_hooks;
bool free_threads;

static const int NFD = 32768;
static char fdname[NFD][16];
static uint64_t rand_ctr;
static int n_fds, n_maps;

static const char *base(const char *p) { const char *s = p ? strrchr(p, '/') : nullptr; return s ? s + 1 : p ? p : ""; }
static const char *fdn(int fd) { return fd >= 0 && fd < NFD ? fdname[fd] : ""; }
static void fd_set_name(int fd, const char *n) {
  if (fd < 0 || fd >= NFD) return;
  if (!n[0]) n = "?";
  volatile char *d = fdname[fd]; // no library call: a race detector would see it
  for (int i = 0; i < 16; i++) { d[i] = i < 15 ? *n : 0; if (*n) n++; }
  __atomic_add_fetch(&n_fds, 1, __ATOMIC_RELAXED);
}
static void fd_clear(int fd) {
  if (fd < 0 || fd >= NFD) return;
  if (fdname[fd][0]) { fdname[fd][0] = 0; __atomic_sub_fetch(&n_fds, 1, __ATOMIC_RELAXED); }
}
int lib_fds() { return n_fds; }
int lib_maps() { return n_maps; }

void kill_self() { for (;;) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); pause(); } }

struct Saved { int l; Saved() : l(in_lib) { in_lib = 0; } ~Saved() { in_lib = l; } };
static Action ask(const Call &c) {
  Saved s;
  if (sched_hooks) { sched_hooks->point(sc_name[c.sc]); }
  if (!sys_policy) return {Action::PASS, 0, 0};
  Action a = sys_policy(c);
  if (a.k == Action::KILL) kill_self();
  return a;
}
static void after(const Call &c, const Action &a, long r) {
  if (a.k == Action::KILL_AFTER) kill_self();
  if (sys_after) { Saved s; int e = errno; sys_after(c, r); errno = e; }
}
#define ON (in_lib > 0)
#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__);

static void fill_random(void *p, size_t n) {
  uint64_t k = __atomic_add_fetch(&rand_ctr, 1, __ATOMIC_RELAXED);
  Rng r(mix64(rand_seed * 77 + 5) + k * 0x9e3779b97f4a7c15ULL);
  r.fill(p, n);
}

// open family
#define DEF_OPEN(name) \
REAL(int, name, const char *, int, ...) \
extern "C" int __wrap_##name(const char *path, int flags, ...) { \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  if (!ON) return __real_##name(path, flags, mode); \
  Call c{S_OPEN, path, base(path), -1, 0, flags}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r; \
  bool rnd = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"); \
  r = __real_##name(rnd ? "/dev/null" : path, flags, mode); \
  if (r >= 0) fd_set_name(r, rnd ? "@rand" : base(path)); \
  after(c, a, r); return r; }
DEF_OPEN(open)
DEF_OPEN(open64)

#define DEF_OPENAT(name) \
REAL(int, name, int, const char *, int, ...) \
extern "C" int __wrap_##name(int dfd, const char *path, int flags, ...) { \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  if (!ON) return __real_##name(dfd, path, flags, mode); \
  Call c{S_OPEN, path, base(path), -1, 0, flags}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(dfd, path, flags, mode); \
  if (r >= 0) fd_set_name(r, base(path)); \
  after(c, a, r); return r; }
DEF_OPENAT(openat)
DEF_OPENAT(openat64)

REAL(int, close, int)
extern "C" int __wrap_close(int fd) {
  if (!ON) return __real_close(fd);
  Call c{S_CLOSE, nullptr, fdn(fd), fd, 0, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { fd_clear(fd); __real_close(fd); errno = a.err; return -1; } // the descriptor is gone, as on Linux
  fd_clear(fd);
  int r = __real_close(fd); after(c, a, r); return r;
}

REAL(ssize_t, read, int, void *, size_t)
extern "C" ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (!ON) return __real_read(fd, p, n);
  Call c{S_READ, nullptr, fdn(fd), fd, n, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  if (a.k == Action::PARTIAL && n > 1) n = a.n % n ? a.n % n : 1;
  if (fdn(fd)[0] == '@') { fill_random(p, n); return n; }
  ssize_t r = __real_read(fd, p, n); after(c, a, r); return r;
}
#define DEF_PREAD(name, off) \
REAL(ssize_t, name, int, void *, size_t, off) \
extern "C" ssize_t __wrap_##name(int fd, void *p, size_t n, off o) { \
  if (!ON) return __real_##name(fd, p, n, o); \
  Call c{S_PREAD, nullptr, fdn(fd), fd, n, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  if (a.k == Action::PARTIAL && n > 1) n = a.n % n ? a.n % n : 1; \
  ssize_t r = __real_##name(fd, p, n, o); after(c, a, r); return r; }
DEF_PREAD(pread, off_t)
DEF_PREAD(pread64, off64_t)

REAL(ssize_t, write, int, const void *, size_t)
extern "C" ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (!ON) return __real_write(fd, p, n);
  Call c{S_WRITE, nullptr, fdn(fd), fd, n, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  if ((a.k == Action::PARTIAL || a.k == Action::KILL_PARTIAL) && n > 1) n = a.n % n ? a.n % n : 1;
  ssize_t r = __real_write(fd, p, n);
  if (a.k == Action::KILL_PARTIAL) kill_self();
  after(c, a, r); return r;
}
#define DEF_PWRITE(name, off) \
REAL(ssize_t, name, int, const void *, size_t, off) \
extern "C" ssize_t __wrap_##name(int fd, const void *p, size_t n, off o) { \
  if (!ON) return __real_##name(fd, p, n, o); \
  Call c{S_PWRITE, nullptr, fdn(fd), fd, n, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  if ((a.k == Action::PARTIAL || a.k == Action::KILL_PARTIAL) && n > 1) n = a.n % n ? a.n % n : 1; \
  ssize_t r = __real_##name(fd, p, n, o); \
  if (a.k == Action::KILL_PARTIAL) kill_self(); \
  after(c, a, r); return r; }
DEF_PWRITE(pwrite, off_t)
DEF_PWRITE(pwrite64, off64_t)

REAL(ssize_t, writev, int, const struct iovec *, int)
extern "C" ssize_t __wrap_writev(int fd, const struct iovec *v, int k) {
  if (!ON) return __real_writev(fd, v, k);
  size_t n = 0; for (int i = 0; i < k; i++) n += v[i].iov_len;
  Call c{S_WRITE, nullptr, fdn(fd), fd, n, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  if ((a.k == Action::PARTIAL || a.k == Action::KILL_PARTIAL) && n > 1) {
    n = a.n % n ? a.n % n : 1; size_t done = 0;
    for (int i = 0; i < k && done < n; i++) { size_t m = v[i].iov_len < n - done ? v[i].iov_len : n - done; ssize_t r = __real_write(fd, v[i].iov_base, m); if (r < 0) break; done += r; }
    if (a.k == Action::KILL_PARTIAL) kill_self();
    return done;
  }
  ssize_t r = __real_writev(fd, v, k); after(c, a, r); return r;
}

#define SIMPLE_FD(name, SCX, T) \
REAL(int, name, int, T) \
extern "C" int __wrap_##name(int fd, T n) { \
  if (!ON) return __real_##name(fd, n); \
  Call c{SCX, nullptr, fdn(fd), fd, (size_t)n, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(fd, n); after(c, a, r); return r; }
SIMPLE_FD(ftruncate, S_FTRUNCATE, off_t)
SIMPLE_FD(ftruncate64, S_FTRUNCATE, off64_t)
#define FD0(name, SCX) \
REAL(int, name, int) \
extern "C" int __wrap_##name(int fd) { \
  if (!ON) return __real_##name(fd); \
  Call c{SCX, nullptr, fdn(fd), fd, 0, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(fd); after(c, a, r); return r; }
FD0(fsync, S_FSYNC)
FD0(fdatasync, S_FSYNC)
#define PATH1(name, SCX, T) \
REAL(int, name, const char *, T) \
extern "C" int __wrap_##name(const char *p, T n) { \
  if (!ON) return __real_##name(p, n); \
  Call c{SCX, p, base(p), -1, 0, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(p, n); after(c, a, r); return r; }
PATH1(truncate, S_TRUNCATE, off_t)
PATH1(truncate64, S_TRUNCATE, off64_t)
PATH1(mkdir, S_MKDIR, mode_t)
PATH1(access, S_ACCESS, int)
PATH1(stat, S_STAT, struct stat *)
PATH1(stat64, S_STAT, struct stat64 *)
PATH1(lstat, S_STAT, struct stat *)
PATH1(lstat64, S_STAT, struct stat64 *)
#define PATH0(name, SCX) \
REAL(int, name, const char *) \
extern "C" int __wrap_##name(const char *p) { \
  if (!ON) return __real_##name(p); \
  Call c{SCX, p, base(p), -1, 0, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(p); after(c, a, r); return r; }
PATH0(unlink, S_UNLINK)
PATH0(remove, S_UNLINK)
PATH0(rmdir, S_RMDIR)
REAL(int, rename, const char *, const char *)
extern "C" int __wrap_rename(const char *p, const char *q) {
  if (!ON) return __real_rename(p, q);
  Call c{S_RENAME, p, base(p), -1, 0, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  int r = __real_rename(p, q); after(c, a, r); return r;
}
#define FSTAT(name, T) \
REAL(int, name, int, T *) \
extern "C" int __wrap_##name(int fd, T *st) { \
  if (!ON) return __real_##name(fd, st); \
  Call c{S_FSTAT, nullptr, fdn(fd), fd, 0, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(fd, st); after(c, a, r); return r; }
FSTAT(fstat, struct stat)
FSTAT(fstat64, struct stat64)

// DIR* counts as a descriptor
REAL(DIR *, opendir, const char *)
extern "C" DIR *__wrap_opendir(const char *p) {
  if (!ON) return __real_opendir(p);
  Call c{S_OPENDIR, p, base(p), -1, 0, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return nullptr; }
  DIR *d = __real_opendir(p);
  if (d) __atomic_add_fetch(&n_fds, 1, __ATOMIC_RELAXED);
  after(c, a, d ? 0 : -1); return d;
}
REAL(int, closedir, DIR *)
extern "C" int __wrap_closedir(DIR *d) {
  if (!ON) return __real_closedir(d);
  Call c{S_CLOSEDIR, nullptr, "", -1, 0, 0}; Action a = ask(c);
  __atomic_sub_fetch(&n_fds, 1, __ATOMIC_RELAXED);
  int r = __real_closedir(d); after(c, a, r);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  return r;
}
#define READDIR(name, T) \
REAL(T *, name, DIR *) \
extern "C" T *__wrap_##name(DIR *d) { \
  if (!ON) return __real_##name(d); \
  Call c{S_READDIR, nullptr, "", -1, 0, 0}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return nullptr; } \
  T *r = __real_##name(d); after(c, a, r ? 0 : -1); return r; }
READDIR(readdir, struct dirent)
READDIR(readdir64, struct dirent64)

#define FCNTL(name) \
REAL(int, name, int, int, ...) \
extern "C" int __wrap_##name(int fd, int cmd, ...) { \
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); \
  if (!ON) return __real_##name(fd, cmd, arg); \
  Call c{S_FCNTL, nullptr, fdn(fd), fd, 0, cmd}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  int r = __real_##name(fd, cmd, arg); after(c, a, r); return r; }
FCNTL(fcntl)
FCNTL(fcntl64)
REAL(int, flock, int, int)
extern "C" int __wrap_flock(int fd, int op) {
  if (!ON) return __real_flock(fd, op);
  Call c{S_FCNTL, nullptr, fdn(fd), fd, 0, op}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  int r = __real_flock(fd, op); after(c, a, r); return r;
}

#define MMAP(name, off) \
REAL(void *, name, void *, size_t, int, int, int, off) \
extern "C" void *__wrap_##name(void *p, size_t n, int prot, int fl, int fd, off o) { \
  if (!ON) return __real_##name(p, n, prot, fl, fd, o); \
  Call c{S_MMAP, nullptr, fdn(fd), fd, n, fl}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return MAP_FAILED; } \
  void *r = __real_##name(p, n, prot, fl, fd, o); \
  if (r != MAP_FAILED) __atomic_add_fetch(&n_maps, 1, __ATOMIC_RELAXED); \
  after(c, a, r == MAP_FAILED ? -1 : 0); return r; }
MMAP(mmap, off_t)
MMAP(mmap64, off64_t)
REAL(int, munmap, void *, size_t)
extern "C" int __wrap_munmap(void *p, size_t n) {
  if (!ON) return __real_munmap(p, n);
  Call c{S_MUNMAP, nullptr, "", -1, n, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return -1; }
  int r = __real_munmap(p, n);
  if (r == 0) __atomic_sub_fetch(&n_maps, 1, __ATOMIC_RELAXED);
  after(c, a, r); return r;
}
REAL(char *, getcwd, char *, size_t)
extern "C" char *__wrap_getcwd(char *b, size_t n) {
  if (!ON) return __real_getcwd(b, n);
  Call c{S_GETCWD, nullptr, "", -1, n, 0}; Action a = ask(c);
  if (a.k == Action::ERR) { errno = a.err; return nullptr; }
  return __real_getcwd(b, n);
}
#define LSEEK(name, off) \
REAL(off, name, int, off, int) \
extern "C" off __wrap_##name(int fd, off o, int w) { \
  if (!ON) return __real_##name(fd, o, w); \
  Call c{S_LSEEK, nullptr, fdn(fd), fd, 0, w}; Action a = ask(c); \
  if (a.k == Action::ERR) { errno = a.err; return -1; } \
  return __real_##name(fd, o, w); }
LSEEK(lseek, off_t)
LSEEK(lseek64, off64_t)

// Randomness and time
REAL(ssize_t, getrandom, void *, size_t, unsigned)
extern "C" ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { if (!ON) return __real_getrandom(p, n, f); fill_random(p, n); return n; }
REAL(int, getentropy, void *, size_t)
extern "C" int __wrap_getentropy(void *p, size_t n) { if (!ON) return __real_getentropy(p, n); fill_random(p, n); return 0; }
REAL(int, gettimeofday, struct timeval *, void *)
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!ON) return __real_gettimeofday(tv, z); tv->tv_sec = 1600000000 + rand_seed % 100000; tv->tv_usec = __atomic_add_fetch(&rand_ctr, 1, __ATOMIC_RELAXED) % 1000000; return 0; }
REAL(int, clock_gettime, clockid_t, struct timespec *)
extern "C" int __wrap_clock_gettime(clockid_t k, struct timespec *ts) { if (!ON) return __real_clock_gettime(k, ts); ts->tv_sec = 1600000000 + rand_seed % 100000; ts->tv_nsec = __atomic_add_fetch(&rand_ctr, 1, __ATOMIC_RELAXED) % 1000000000; return 0; }

// Locks. One thread: a lock that cannot be taken at once is a deadlock.
static int self_deadlock(const char *what) { die_fail(sfmt("deadlock: the only thread waits for a lock it holds itself (%s)", what).c_str()); return 0; }
#define DEF_LOCK(name, T, kind, tryname, istry) \
REAL(int, name, T *) \
extern "C" int __wrap_##name(T *l) { \
  if (!ON || free_threads) return __real_##name(l); \
  if (sched_hooks) { Saved s; return sched_hooks->lock(l, kind, istry); } \
  if (istry) return __real_##name(l); \
  int r = __real_##tryname(l); \
  if (r == EBUSY || r == EDEADLK) return self_deadlock(#name); \
  return r; }
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
DEF_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, 0, pthread_rwlock_tryrdlock, 0)
DEF_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, 1, pthread_rwlock_trywrlock, 0)
DEF_LOCK(pthread_mutex_lock, pthread_mutex_t, 2, pthread_mutex_trylock, 0)
#define DEF_TRY(name, T, kind) \
extern "C" int __wrap_##name(T *l) { \
  if (!ON || free_threads || !sched_hooks) return __real_##name(l); \
  Saved s; return sched_hooks->lock(l, kind, 1); }
DEF_TRY(pthread_rwlock_tryrdlock, pthread_rwlock_t, 0)
DEF_TRY(pthread_rwlock_trywrlock, pthread_rwlock_t, 1)
DEF_TRY(pthread_mutex_trylock, pthread_mutex_t, 2)
#define DEF_UNLOCK(name, T, mutex) \
REAL(int, name, T *) \
extern "C" int __wrap_##name(T *l) { \
  if (!ON || free_threads || !sched_hooks) return __real_##name(l); \
  Saved s; return sched_hooks->unlock(l, mutex); }
DEF_UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t, 0)
DEF_UNLOCK(pthread_mutex_unlock, pthread_mutex_t, 1)
#define DEF_DESTROY(name, T) \
REAL(int, name, T *) \
extern "C" int __wrap_##name(T *l) { \
  if (ON && sched_hooks) { Saved s; sched_hooks->destroy(l); } \
  return __real_##name(l); }
DEF_DESTROY(pthread_rwlock_destroy, pthread_rwlock_t)
DEF_DESTROY(pthread_mutex_destroy, pthread_mutex_t)

// Memory accounting ----------------------------------------------------------
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static const size_t TAB = 1 << 20;
struct Blk { uintptr_t p; size_t n; };
static Blk *tab;
static size_t n_blk, n_bytes;
static bool hooked;
static size_t slot(uintptr_t p) { return (p * 0x9e3779b97f4a7c15ULL) >> 44; }
static void on_malloc(const volatile void *p, size_t n) {
  if (!track_memory || in_lib <= 0 || !p) return;
  size_t i = slot((uintptr_t)p), k = 0;
  while (tab[i].p > 1) { i = (i + 1) & (TAB - 1); if (++k == TAB) return; }
  tab[i].p = (uintptr_t)p; tab[i].n = n; n_blk++; n_bytes += n;
}
static void on_free(const volatile void *p) {
  if (!track_memory || !p) return;
  size_t i = slot((uintptr_t)p), k = 0;
  while (tab[i].p && k++ < TAB) { if (tab[i].p == (uintptr_t)p) { tab[i].p = 1; n_blk--; n_bytes -= tab[i].n; return; } i = (i + 1) & (TAB - 1); }
}
size_t lib_blocks() { return n_blk; }
size_t lib_bytes() { return n_bytes; }
std::string lib_blocks_sizes() {
  std::string s; int n = 0;
  for (size_t i = 0; i < TAB && n < 12; i++) if (tab[i].p > 1) { s += sfmt(" %zu", tab[i].n); n++; }
  return s;
}
void lib_accounting_reset() {
  if (!tab) tab = (Blk *)__real_mmap(nullptr, TAB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bool t = track_memory; track_memory = false;
  for (size_t i = 0; i < TAB; i++) if (tab[i].p) { tab[i].p = 0; }
  n_blk = n_bytes = 0;
  if (!hooked && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); hooked = true; }
  track_memory = t;
}

void case_reset() {
  sys_policy = nullptr; sys_after = nullptr; sched_hooks = nullptr; in_lib = 0; free_threads = false;
  track_memory = false; rand_seed = 0; rand_ctr = 0;
  // what a case abandoned
  for (int i = 3; i < NFD && n_fds > 0; i++) if (fdname[i][0]) { __real_close(i); fdname[i][0] = 0; n_fds--; }
  n_fds = n_maps = 0;
  memset(fdname, 0, sizeof fdname);
}

// Buffers in pages of their own (api.hh).
#include "api.hh"
bool buf_page; char buf_error[256];
static Page *ring[64]; static unsigned ring_at;
static const size_t PG = 4096;
Page *page_get(const void *d, size_t n) {
  if (n > PG - 64) return nullptr;
  unsigned i; for (unsigned k = 0;; k++) { if (k == 64) return nullptr; i = ring_at++ % 64; if (!ring[i] || !ring[i]->n) break; }
  if (!ring[i]) { char *m = (char *)mmap(nullptr, 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) return nullptr; ring[i] = new Page{nullptr, (uint8_t *)m + PG, false, 0}; }
  Page *g = ring[i]; uint8_t *b = g->end - PG; mprotect(b, PG, PROT_READ | PROT_WRITE);
  g->in = d != nullptr; g->n = n + 1;
  // at the end of the page, or anywhere
  g->p = ring_at % 3 == 0 ? g->end - n : b + (ring_at * 2654435761u >> 8) % (PG - n);
  if (g->in) { memcpy(g->p, d, n); mprotect(b, PG, PROT_READ); }
  else { memset(b, 0xa5, PG); memset(g->p, 0xee, n); }
  return g;
}
void page_put(Page *g) {
  size_t n = g->n - 1; uint8_t *b = g->end - PG;
  if (!g->in) for (uint8_t *q = b; q < g->end; q++) { if (q == g->p) q += n; if (q < g->end && *q != 0xa5 && !buf_error[0]) snprintf(buf_error, sizeof buf_error, "a call writes outside of a buffer of %zu bytes, at %ld", n, (long)(q - g->p)); }
  mprotect(b, PG, PROT_NONE); g->n = 0;
}
