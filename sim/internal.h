#pragma once
#include "sim.h"
namespace sim {
enum { ST_NONE, ST_OK, ST_VIOLATION, ST_INTERNAL };
const u64 START_MONO = 1000000000000ull;
const int NCOUNTER = 64; const u32 MAXREC = 400000;
struct Counter { char name[32]; u64 n; };
struct Rec { u32 chan, val; };
struct Shared {                 // one run's result, in shared memory
  int status; char cls[128]; char msg[3072]; u64 hash, steps, simtime, edges, syscalls, switches, run_faults; int nontrivial;
  Counter faults[NCOUNTER], probes[NCOUNTER];
  u32 nrec; int rec_overflow; char sample[400]; u32 scenario;
  Rec rec[MAXREC];
};
extern Shared *sh;
struct Choices { u64 rng[NCHAN]; bool replaying; std::vector<u32> list[NCHAN]; size_t pos[NCHAN]; };
void choices_begin(u64 key, const std::vector<u32> *replay);
[[noreturn]] void finish(int status);
void __asan_off();
typedef void (*SigH)(int);
#define SIG_DFL_ ((::sim::SigH) 0)
#define SIG_IGN_ ((::sim::SigH) 1)
Task *lib_thread(void *(*fn)(void *), void *arg, bool detached);
void lib_check_handle(Task *t, const char *op);
void lib_detach(Task *t); void lib_cancel(Task *t); void *lib_retval(Task *t); void lib_cancel_enable(bool on, bool *old); void cancel_check(); bool lib_is_detached(Task *t);
int deliver_signals(); bool signals_pending();
void sim_init_run();
void on_edge(); void on_access(); bool is_shared(const void *); void on_shared(); extern bool many;
void run_scenario(u32 idx);
}
