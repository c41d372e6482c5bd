// The library's system calls and locks, seen and steered by the harness
// (linker --wrap). Everything passes through unless a policy says otherwise.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>

enum SC { S_OPEN, S_CLOSE, S_READ, S_PREAD, S_WRITE, S_PWRITE, S_FTRUNCATE, S_TRUNCATE, S_UNLINK, S_RENAME, S_MKDIR, S_RMDIR,
  S_STAT, S_FSTAT, S_ACCESS, S_OPENDIR, S_READDIR, S_CLOSEDIR, S_FSYNC, S_FCNTL, S_MMAP, S_MUNMAP, S_GETCWD, S_LSEEK, S_N };
extern const char *const sc_name[S_N];

struct Call {
  SC sc;
  const char *path;   // full path or null
  const char *file;   // base name of path or of what fd was opened as ("" if unknown)
  int fd; size_t len; int flags;
};
struct Action { enum K { PASS, ERR, PARTIAL, KILL, KILL_AFTER, KILL_PARTIAL } k; int err; size_t n; };
typedef Action (*Policy)(const Call &);
extern Policy sys_policy;            // null: pass everything
extern void (*sys_after)(const Call &, long ret); // after a passed call

extern __thread int in_lib;          // > 0 while the library runs in this thread
void lib_left();                     // a scheduling point between a call and reading its results
extern void (*lib_enter)();         // just before a call
struct InLib { InLib() { if (lib_enter) lib_enter(); in_lib++; } ~InLib() { if (--in_lib == 0) lib_left(); } };

extern uint64_t rand_seed;           // what /dev/urandom returns is derived from it
extern bool track_memory;            // leak accounting on (sanitizer builds)
size_t lib_blocks();                 // live allocations made by the library
size_t lib_bytes();                  // and their sizes
std::string lib_blocks_sizes();
int lib_fds();                       // descriptors the library has open
int lib_maps();                      // mappings the library holds
void lib_accounting_reset();

// Scheduler hooks (sched.cc); null when threads are not owned.
struct SchedHooks {
  int (*lock)(void *obj, int kind, int try_);  // kind 0 read, 1 write, 2 mutex
  int (*unlock)(void *obj, int mutex);
  void (*destroy)(void *obj);
  void (*point)(const char *what);
};
extern const SchedHooks *volatile sched_hooks;
extern bool free_threads;            // real blocking locks (threads not owned)
[[noreturn]] void kill_self();
