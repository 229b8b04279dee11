// Deterministic cooperative scheduler used by the concurrency drivers.
//
// The pthread synchronisation calls made by the code under test (directly or
// through libstdc++) are interposed; while a run is active exactly one thread
// executes at a time and every synchronisation call is a scheduling point at
// which the explorer chooses who runs next.  Nothing in /repo is changed.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {

enum Outcome { kFinished = 0, kDeadlock = 1, kLivelock = 2, kCrash = 3, kTimeout = 4 };

struct RunResult {
  Outcome outcome;
  int signal;            // for kCrash
  std::string log;       // events, one JSON object per line
  std::vector<std::pair<uint8_t, uint8_t>> choices;  // (taken, options)
};

struct Config {
  int preemptions = 2;   // budget of preemptive switches per run (-1: no limit)
  int spurious = 0;      // budget of spurious wake-ups per run
  int max_steps = 20000;
  int timeout_s = 20;
};

// body runs as thread 0 in a forked child.
RunResult RunOnce(const Config& cfg, const std::vector<uint8_t>& prefix,
                  bool random_tail, uint64_t seed,
                  const std::function<void()>& body);

// Explores schedules of body: depth-first (all schedules within the budgets)
// up to max_dfs runs, then random ones up to max_random. visit returns false to stop.
struct Stats { long runs = 0; bool exhausted = false; };
Stats Explore(const Config& cfg, long max_dfs, long max_random, uint64_t seed,
              const std::function<void()>& body,
              const std::function<bool(const RunResult&)>& visit);

// --- callable from inside a run ---
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Yield();                    // explicit scheduling point
int Self();                      // small thread id
int UnfinishedThreads();         // threads other than the caller not finished
long LiveAllocs();               // live operator-new allocations (tracked)
long BadFrees();
void Spawn(const std::function<void()>& f, void** handle);
void JoinSpawned(void* handle);
}  // namespace vs
#endif
