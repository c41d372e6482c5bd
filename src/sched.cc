// Never compiled with a sanitizer: what synchronises the threads here must not
// look like synchronisation to a race detector.
#include "sched.hh"
#include "wrap.hh"
#include "engine.hh"
#include <atomic>
#include <climits>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
}

SchedStats sched_stats;
static const int MAXT = 8;
struct Th { std::atomic<int> go; bool done; void *waits; int wkind; };
static Th th[MAXT];
static int nth;
static __thread int me = -1;
static const Plan *plan;
static size_t pre_i, pick_i;
static uint32_t countdown;
static std::atomic<uint64_t> clock_;
static const std::function<void(int)> *the_body;
static const std::function<std::string(int)> *the_desc;
static bool off;                   // free threads

static void futex(std::atomic<int> *a, int op, int v) { syscall(SYS_futex, (int *)a, op, v, nullptr, nullptr, 0); }
static void wake(int t) { th[t].go.store(1); futex(&th[t].go, FUTEX_WAKE_PRIVATE, 1); }
static void sleep_own() { while (!th[me].go.load()) futex(&th[me].go, FUTEX_WAIT_PRIVATE, 0); th[me].go.store(0); }
static void go_to(int t) { if (t == me) return; sched_stats.switches++; wake(t); sleep_own(); }
static void arm() { countdown = pre_i < plan->pre.size() ? plan->pre[pre_i].first : UINT32_MAX; }

// A runnable thread chosen by v, or -1.
static int runnable(uint32_t v, bool others) {
  int r[MAXT], k = 0;
  for (int i = 0; i < nth; i++) if (!th[i].done && !th[i].waits && (!others || i != me)) r[k++] = i;
  return k ? r[v % k] : -1;
}
static void deadlock() {
  std::string m = "deadlock:";
  for (int i = 0; i < nth; i++) {
    if (th[i].done) continue;
    m += sfmt("%s thread %d waits for a %s lock in [%s]", i ? ";" : "", i, th[i].wkind ? "write" : "read", (*the_desc)(i).c_str());
  }
  die_fail(m.c_str());
}
static void preempt() {
  if (--countdown) return;
  uint32_t to = plan->pre[pre_i++].second;
  arm();
  int t = runnable(to, true);
  if (t >= 0) go_to(t);
}
static void leave(bool ended) { // the running thread cannot go on
  uint32_t v = pick_i < plan->pick.size() ? plan->pick[pick_i++] : 0;
  int t = runnable(v, true);
  if (t < 0) { if (ended) { for (int i = 0; i < nth; i++) if (!th[i].done) deadlock(); return; } deadlock(); }
  sched_stats.blocks++;
  if (ended) wake(t); else go_to(t);
}
static void s_point(const char *) { if (me < 0 || off) return; sched_stats.points++; preempt(); }
static int real_try(void *o, int kind) {
  if (kind == 0) return __real_pthread_rwlock_tryrdlock((pthread_rwlock_t *)o);
  if (kind == 1) return __real_pthread_rwlock_trywrlock((pthread_rwlock_t *)o);
  return __real_pthread_mutex_trylock((pthread_mutex_t *)o);
}
static int s_lock(void *o, int kind, int try_) {
  if (me < 0) { // the main thread, before or after
    int r = real_try(o, kind);
    if (!try_ && (r == EBUSY || r == EDEADLK)) die_fail("deadlock: the main thread waits for a lock that nobody will release");
    return r;
  }
  s_point("lock");
  for (;;) {
    int r = real_try(o, kind);
    if (try_ || (r != EBUSY && r != EDEADLK && r != EAGAIN)) return r;
    th[me].waits = o; th[me].wkind = kind;
    leave(false);
  }
}
static int s_unlock(void *o, int mutex) {
  int r = mutex ? __real_pthread_mutex_unlock((pthread_mutex_t *)o) : __real_pthread_rwlock_unlock((pthread_rwlock_t *)o);
  for (int i = 0; i < nth; i++) if (th[i].waits == o) th[i].waits = nullptr;
  if (me >= 0) s_point("unlock");
  return r;
}
static void s_destroy(void *o) {
  for (int i = 0; i < nth; i++) if (th[i].waits == o) die_fail(sfmt("a lock is destroyed while thread %d waits for it in [%s]", i, (*the_desc)(i).c_str()).c_str());
}
static const SchedHooks hooks = {s_lock, s_unlock, s_destroy, s_point};

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
uint64_t lib_work; // what the library did in the main thread: basic blocks, loads and stores
static inline void tick(int level) {
  if (me < 0) { if (in_lib > 0) lib_work++; return; }
  if (in_lib <= 0 || off || plan->fine < level) return;
  sched_stats.points++;
  if (--countdown) return;
  int l = in_lib; in_lib = 0; int e = errno;
  countdown = 1; preempt();
  errno = e; in_lib = l;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *) { tick(1); }
#define ACC(n) extern "C" void __sanitizer_cov_load##n(void *) { tick(2); } extern "C" void __sanitizer_cov_store##n(void *) { tick(2); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

static void run_body(int i) {
  try { (*the_body)(i); }
  catch (Failure &f) { die_fail(sfmt("thread %d: %s", i, f.msg.c_str()).c_str()); }
}
static void *thread_main(void *p) {
  me = (int)(intptr_t)p;
  if (off) { run_body(me); return nullptr; }
  sleep_own();
  run_body(me);
  th[me].done = true;
  leave(true);
  return nullptr;
}
uint64_t sched_now() { return clock_.fetch_add(1) + 1; }

static void start_all(int n) {
  pthread_t t[MAXT];
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < n; i++) if (pthread_create(&t[i], &at, thread_main, (void *)(intptr_t)i)) { fprintf(stderr, "harness: pthread_create\n"); _exit(2); }
  pthread_attr_destroy(&at);
  if (!off) { uint32_t v = pick_i < plan->pick.size() ? plan->pick[pick_i++] : 0; wake(v % n); }
  for (int i = 0; i < n; i++) pthread_join(t[i], nullptr);
}
void sched_run(const Plan &p, int n, const std::function<void(int)> &body, const std::function<std::string(int)> &describe) {
  plan = &p; nth = n; pre_i = pick_i = 0; off = false; clock_.store(0);
  sched_stats = SchedStats();
  the_body = &body; the_desc = &describe;
  for (int i = 0; i < n; i++) { th[i].go.store(0); th[i].done = false; th[i].waits = nullptr; }
  arm();
  sched_hooks = &hooks;
  start_all(n);
  sched_hooks = nullptr; plan = nullptr; nth = 0;
}
void free_run(int n, const std::function<void(int)> &body) {
  off = true; the_body = &body; free_threads = true; clock_.store(0); nth = 0;
  start_all(n);
  free_threads = false; off = false;
}
