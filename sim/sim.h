// Deterministic simulator: choices, virtual time, tasks, results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <pthread.h>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn here. Value 0 is always the simplest one.
enum Chan { CFG, PLAN, NET, SCHED, FAULT, NCHAN };
u32  choose(Chan c, u32 n);                     // 0..n-1
bool chance(Chan c, u32 num, u32 den);          // 1 with probability num/den
u64  between(Chan c, u64 lo, u64 hi);           // lo..hi, lo simplest
u32  pick(Chan c, std::initializer_list<u32> l); // one of l, first simplest
u64  size_pick(Chan c, u64 max);                // sizes with mass at boundaries, 0.. max
u64  mix(u64 a, u64 b);
extern u64 run_key;                             // unique key of this run (not a choice source)

// ---------------------------------------------------------------- log, hash, counters
extern bool verbose;
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace line (replay -v), hashed by caller only
void hash_add(u64 v);
void fault(const char *name);                   // a fault of this kind really fired
void probe(const char *name);                   // a rare condition was reached
void nontrivial();                              // run counted as non-trivial

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- time
extern u64 mono;                                // ns
extern int64_t real_off;                        // realtime = mono + real_off
inline u64 realtime() { return mono + real_off; }
u64  at(u64 when, std::function<void()> f, bool background = false);  // returns id
u64  after(u64 delay, std::function<void()> f, bool background = false);
void cancel_event(u64 id);
void run_due();                                 // run events due at or before mono
bool advance(bool allow_background);            // jump to the next event and run it; false if none
u64  pending_foreground();
void stall(u64 ns);                             // time passes, events happen, in kernel context

// ---------------------------------------------------------------- tasks
struct Task;
extern Task *cur;
int  cur_id();
void yield_point();                             // maybe switch (SCHED choice)
bool block_until(const std::function<bool()> &pred, u64 deadline, bool cancel_point, int *interrupted);
Task *spawn(std::function<void()> f, bool detached, const char *name);   // harness thread (simulated)
void join(Task *t);
bool task_done(Task *t);
int  tasks_alive();
void sleep_ns(u64 ns, bool cancel_point);
int  threads_unjoined();
extern Task *last_lib_thread; extern std::function<void(Task *)> on_main_join;   // the main task waits for another

// idle: every task is blocked and (apart from background events) nothing is scheduled.
extern bool stop_at_background;                 // treat background-only as idle
extern u64  idle_hits;                          // bumped whenever a wait was ended because of idleness
extern std::function<void()> on_idle;           // may throw a violation; may schedule events (then the wait goes on)

extern int in_kernel;                           // no scheduling, no event processing while > 0
struct Kernel { Kernel() { in_kernel++; } ~Kernel() { in_kernel--; } };

extern u64 edges, edge_cap, syscalls;
void progress();                                // resets the livelock cap
void sys_progress();

// signals
void raise_signal(int sig);                     // pending for the main task
void poke_main();                               // ends the current or next wait of the main task (EINTR)
extern int preempt_scale;                       // 0: never preempt voluntarily; larger = denser preemption

// ---------------------------------------------------------------- run
struct Scenario { const char *prop; const char *name; void (*run)(); u32 weight; };
void register_scenario(const char *prop, const char *name, void (*run)(), u32 weight);
const char *current_property();
struct Reg { Reg(const char *p, const char *n, void (*f)(), u32 w = 1) { register_scenario(p, n, f, w); } };

}
