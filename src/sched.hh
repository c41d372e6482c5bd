// One thread runs at a time; who runs when is decided by the case.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include <utility>
#include <vector>

struct Plan {
  // forced switches: after that many points of this granularity, to that thread
  std::vector<std::pair<uint32_t, uint32_t>> pre;
  std::vector<uint32_t> pick;      // who goes on when the running thread waits or ends
  int fine = 0;                    // points at locks and system calls; 1: also at basic blocks; 2: also at memory accesses
};
// Runs body(0..n-1) in n threads under the plan. A state in which every thread
// waits for a lock ends the case as a failure. describe(i): what thread i is doing.
void sched_run(const Plan &p, int n, const std::function<void(int)> &body, const std::function<std::string(int)> &describe);
uint64_t sched_now();              // logical time, different at each call
struct SchedStats { uint64_t points, switches, blocks; };
extern SchedStats sched_stats;     // of the last run
extern uint64_t lib_work;         // the library's basic blocks, loads and stores in the main thread so far (variant cov)
// The same without control: real threads.
void free_run(int n, const std::function<void(int)> &body);
