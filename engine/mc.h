// mc: a small stateless model checker for C++ code under a controlled scheduler.
//
// A *scenario* is a closed little program (a function) that drives real FairMQ code.  The engine
// runs it again and again, each time under a different schedule / different answers to choose(),
// until the whole tree of choices within the stated bounds has been walked (depth first, work
// list, several worker processes).
//
// Scheduling nondeterminism: pthread mutexes, condition variables, thread creation/join, sleeps,
// clocks are interposed; in "instrumented" builds every atomic operation of the code under test is
// a scheduling point too (the code is compiled with -fsanitize=thread, but linked with the runtime
// in mc_tsan.cc) and plain accesses feed a happens-before race detector.
// Data nondeterminism: mc::choose(n).
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace mc {

struct Opts
{
    int preemptions = 2;          // preemption bound, quick tier
    int preemptions_thorough = 3;
    bool delays = false;          // the bound counts every deviation from round robin scheduling (delay bounding)
    bool early_timeouts = true;   // timeouts may expire (at the cost of one preemption) while threads can still run
    int spurious = 0;             // extra spurious wake-ups explored per execution
    bool races = false;           // report data races (instrumented builds)
    bool freecheck = false;       // use-after-free / double free detection (instrumented builds)
    bool sched_atomics = true;    // atomic operations are scheduling points
    bool sched_refcounts = false; // also 4-byte fetch_add/sub (shared_ptr style counters)
    long max_execs = 0;           // 0: until exhausted or time is up
    long max_execs_thorough = 0;
    int max_steps = 20000;        // per execution: more means livelock
    int max_time_jumps = 400;     // forced clock advances without any other progress
    double weight = 1.0;          // share of the time budget
    bool leak_threads_ok = false;
    bool in_main = false;         // run the body on the worker's main thread
    bool alarm_real = true;       // a single execution may take at most exec_timeout_s (real)
    int exec_timeout_s = 20;
    bool fork_each = false;       // one process per execution
    bool thorough_only = false;
};

// ---- used by scenarios -----------------------------------------------------------------------
int choose(int n, const char* label = "");       // 0..n-1, every value is explored
bool flag(const char* label = "");               // choose(2)
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...) do { if (!(cond)) { ::mc::fail(__VA_ARGS__); } } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the trace of a violation
void outcome(const std::string& s);              // to count distinct observable outcomes
[[noreturn]] void abandon();                     // stop this execution silently (e.g. pruned)
bool visited(uint64_t state_hash, int remaining);// sequential scenarios: true if state was already explored at least that deep
void state(uint64_t h);                          // count a distinct model state
void transition();                               // count a transition / operation
void trace_validated();                          // model trace replayed against the implementation
int64_t now_ns();                                // virtual time
void advance_ns(int64_t d);                      // virtual time passes
void set_tick(int64_t ns);                       // virtual time that passes with every clock read
void yield_point(const char* why);               // explicit scheduling point
// f is called by every controlled thread at every scheduling point, right after it has locked a mutex and
// right before it unlocks one (not from within f).  Crash points: f decides to call freeze_others().
void at_points(std::function<void(const char*)> f);
// every other thread stops for good where it is, as if its process had died (mutexes stay locked); also
// the caller unless it is in the list.  Needs fork_each.
void freeze_others(const std::vector<int>& keep);
bool thorough();
uint64_t seed();
bool replaying();
int threads();                                   // controlled threads created so far (ids 0 to threads()-1)
int self_id();                                   // controlled thread id, -1 if none
size_t live_bytes();                             // bytes allocated by this execution, not yet freed
long live_allocs();
void on_worker_start(std::function<void()> f);   // e.g. scratch directories

// code of the harness that must be invisible (no scheduling points, no race detection)
struct Quiet { Quiet(); ~Quiet(); };

// block the calling controlled thread until pred() is true (evaluated by the scheduler while all
// threads are stopped); deadline<0: none.  Returns false on timeout.
bool block_until(const std::function<bool()>& pred, int64_t deadline_ns, const char* what);

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

struct Scenario
{
    std::string name;
    std::string what;             // one line for the evidence
    std::function<void()> body;
    Opts opts;
};

int run(int argc, char** argv, std::vector<Scenario> scenarios);

}   // namespace mc
