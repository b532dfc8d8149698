#include "sim.h"
#include "internal.h"
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <queue>
#include <unordered_map>

namespace sim {

Shared *sh = nullptr;
bool verbose = false;
u64 run_key = 0;
static Choices g_choices;

u64 mix(u64 a, u64 b)
{
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
  return x;
}

// ---------------------------------------------------------------- choices
void choices_begin(u64 key, const std::vector<u32> *replay)
{
  for (int c = 0; c < NCHAN; c++)
  {
    g_choices.rng[c] = mix(key, 1000 + c);
    g_choices.replaying = replay != nullptr;
    g_choices.list[c].clear();
    g_choices.pos[c] = 0;
    if (replay) g_choices.list[c] = replay[c];
  }
}

static void record(Chan c, u32 v)
{
  u32 n = sh->nrec;
  if (n < MAXREC) { sh->rec[n].chan = c; sh->rec[n].val = v; sh->nrec = n + 1; }
  else sh->rec_overflow = 1;
}

u32 choose(Chan c, u32 n)
{
  u32 v;
  if (n <= 1) return 0;
  if (g_choices.replaying)
  {
    v = g_choices.pos[c] < g_choices.list[c].size() ? g_choices.list[c][g_choices.pos[c]] : 0;
    g_choices.pos[c]++;
    if (v >= n) v %= n;
  }
  else
  {
    u64 &s = g_choices.rng[c];
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    v = (u32) (((z >> 32) * n) >> 32);
  }
  record(c, v);
  return v;
}

bool chance(Chan c, u32 num, u32 den)
{
  if (!num) return false;
  // value 0 = no: the largest part of the range is mapped to 0 so that zeroing a choice disables it
  u32 v = choose(c, den);
  return v >= den - num;
}

u64 between(Chan c, u64 lo, u64 hi)
{
  if (hi <= lo) return lo;
  u64 n = hi - lo + 1;
  if (n <= 0xffffffffull) return lo + choose(c, (u32) n);
  u64 a = choose(c, 0x80000000u), b = choose(c, 0x80000000u);
  return lo + ((a << 31) | b) % n;
}

u32 pick(Chan c, std::initializer_list<u32> l) { return l.begin()[choose(c, (u32) l.size())]; }

u64 size_pick(Chan c, u64 max)
{
  static const u32 b[] = {0, 1, 2, 3, 7, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 99, 100, 255, 256, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097,
    8192, 9999, 10000, 16383, 16384, 16385, 16400, 20000, 32767, 32768, 32769, 49152, 65535, 65536, 65537, 65540, 81920, 98304, 99999, 100000, 131071, 131072, 131073, 196608, 200000, 262144, 300000, 524288, 999999, 1000000, 1048576};
  u32 n = 0; while (n < sizeof b / sizeof *b && b[n] <= max) n++;
  u32 mode = choose(c, 4);
  if (mode <= 1) return b[choose(c, n)];
  if (mode == 2) { u32 k = choose(c, n); u64 v = b[k] + (u64) choose(c, 9); v = v > 4 ? v - 4 : 0; return v > max ? max : v; }
  u32 bits = 0; while ((1ull << bits) <= max) bits++;
  u64 lim = 1ull << (1 + choose(c, bits)); if (lim > max) lim = max;
  return between(c, 0, lim);
}

// ---------------------------------------------------------------- log
void hash_add(u64 v)
{
  sh->hash = (sh->hash ^ v) * 0x100000001B3ull; sh->hash ^= sh->hash >> 29; sh->steps++;
  if (verbose) { dprintf(2, "H %llx\n", (unsigned long long) v); }
}
void note(const char *fmt, ...)
{
  if (!verbose) return;
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  dprintf(1, "%12.6f t%d %s\n", mono / 1e9, cur ? cur_id() : -1, b);
}
static void count_in(Counter *t, const char *name)
{
  for (int i = 0; i < NCOUNTER; i++)
  {
    if (t[i].name[0] == 0) { snprintf(t[i].name, sizeof t[i].name, "%s", name); }
    if (strncmp(t[i].name, name, sizeof t[i].name - 1) == 0) { t[i].n++; return; }
  }
}
void fault(const char *name) { count_in(sh->faults, name); sh->run_faults++; note("fault %s", name); }
void probe(const char *name) { count_in(sh->probes, name); }
void nontrivial() { sh->nontrivial = 1; }

[[noreturn]] void finish(int status)
{
  sh->status = status; sh->simtime = mono - START_MONO; sh->edges = edges; sh->syscalls = syscalls;
  __asan_off();
  _exit(status == ST_OK ? 0 : 1);
}

void violation(const char *cls, const char *fmt, ...)
{
  in_kernel++;
  va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  note("VIOLATION %s: %s", cls, sh->msg);
  finish(ST_VIOLATION);
}
void internal_error(const char *fmt, ...)
{
  in_kernel++;
  va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "internal");
  note("INTERNAL %s", sh->msg);
  finish(ST_INTERNAL);
}

// ---------------------------------------------------------------- time
u64 mono = START_MONO; int64_t real_off = 0;
struct Ev { u64 t, seq; bool bg; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static std::unordered_map<u64, Ev *> evmap;
static u64 evseq, fg_count;
int in_kernel = 0;

u64 at(u64 when, std::function<void()> f, bool bg)
{
  if (when < mono) when = mono;
  Ev *e = new Ev{when, ++evseq, bg, std::move(f)};
  evq.push(e); evmap[e->seq] = e;
  if (!bg) fg_count++;
  return e->seq;
}
u64 after(u64 d, std::function<void()> f, bool bg) { return at(mono + d, std::move(f), bg); }
void cancel_event(u64 id)
{
  auto i = evmap.find(id);
  if (i == evmap.end()) return;
  if (!i->second->bg) fg_count--;
  i->second->f = nullptr; evmap.erase(i);
}
u64 pending_foreground() { return fg_count; }

static bool run_top()
{
  Ev *e = evq.top(); evq.pop();
  if (!e->f) { delete e; return false; }
  evmap.erase(e->seq);
  if (!e->bg) fg_count--;
  if (e->t > mono) mono = e->t;
  in_kernel++;
  e->f();
  in_kernel--;
  delete e;
  return true;
}
void run_due()
{
  if (in_kernel) return;
  u64 guard = 0;
  while (!evq.empty() && evq.top()->t <= mono) { run_top(); if (++guard > 5000000) internal_error("event storm"); }
}
static void purge() { while (!evq.empty() && !evq.top()->f) { delete evq.top(); evq.pop(); } }
bool advance(bool allow_bg)
{
  purge();
  if (evq.empty()) return false;
  if (!allow_bg && fg_count == 0) return false;
  run_top();
  run_due();
  return true;
}
void stall(u64 ns)
{
  if (in_kernel) return;
  u64 end = mono + ns;
  while (!evq.empty() && evq.top()->t <= end) run_top();
  if (mono < end) mono = end;
}

// ---------------------------------------------------------------- tasks
struct Task {
  int id; int fut = 0; bool done = false, detached = false, joined = false, lib = false, is_main = false; const char *name = "";
  const std::function<bool()> *pred = nullptr; u64 deadline = ~0ull; bool runnable = true;
  bool cancel_pending = false, cancel_point = false, cancel_enabled = true; bool interrupted = false, poked = false, in_wait = false;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; std::function<void()> body; pthread_t real; void *retval = nullptr;
};
static Task main_task; Task *cur = &main_task;
static std::vector<Task *> tasks = {&main_task};
bool stop_at_background = false; u64 idle_hits = 0; std::function<void()> on_idle;
u64 edges = 0, edge_cap = 0, syscalls = 0; static u64 edge_mark = 0;
int preempt_scale = 0; static int64_t gap = 0; static int alive = 1;
static std::vector<int> pending_signals;
void (*sig_handler_of(int))(int);

int cur_id() { return cur->id; }
int tasks_alive() { return alive; }
bool task_done(Task *t) { return t->done; }
static u64 sys_mark = 0;
void progress() { edge_mark = edges; sys_mark = syscalls; }
void sys_progress() { if (syscalls - sys_mark > 300000) violation("livelock", "the library made 300000 system calls without making progress"); }

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, NULL, NULL, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, NULL, NULL, 0); }
static void park(Task *t) { while (!__atomic_load_n(&t->fut, __ATOMIC_ACQUIRE)) futex_wait(&t->fut, 0); __atomic_store_n(&t->fut, 0, __ATOMIC_RELEASE); }
static void unpark(Task *t) { __atomic_store_n(&t->fut, 1, __ATOMIC_RELEASE); futex_wake(&t->fut); }

static void new_gap()
{
  if (!preempt_scale) { gap = 0; return; }
  u32 v = choose(SCHED, 8 * preempt_scale);
  if (v == 0) { gap = INT64_MAX; return; }
  u32 e = v >> 3, m = v & 7;
  gap = (1ll << e) + ((int64_t) m << e) / 8;
}

static bool is_ready(Task *t)
{
  if (t->done) return false;
  if (t->runnable) return true;
  if (t->cancel_pending && t->cancel_point && t->cancel_enabled) return true;
  if (t->interrupted || (t->poked && t->in_wait)) return true;
  if (t->deadline <= mono) return true;
  return t->pred && (*t->pred)();
}

static void switch_to(Task *t)
{
  if (t == cur) return;
  Task *self = cur;
  hash_add(0x5100 + t->id);
  sh->switches++;
  cur = t;
  unpark(t);
  if (!self->done) park(self);
}

// pick a ready task other than or including cur
static Task *pick_ready(bool include_cur)
{
  std::vector<Task *> r;
  if (include_cur) r.push_back(cur);
  in_kernel++;
  for (Task *t : tasks) if (t != cur && is_ready(t)) r.push_back(t);
  if (!include_cur && !cur->done && is_ready(cur)) r.insert(r.begin(), cur);
  in_kernel--;
  if (r.empty()) return nullptr;
  return r[r.size() > 1 ? choose(SCHED, r.size()) : 0];
}

static void preempt()
{
  Task *t = pick_ready(true);
  new_gap();
  if (t != cur) { probe("preempted"); switch_to(t); }
}

void yield_point()
{
  if (alive <= 1 || in_kernel) return;
  if (--gap <= 0) { if (preempt_scale) preempt(); else gap = INT64_MAX; }
}

// choose the next task to run when cur cannot go on; handles idleness
static void reschedule()
{
  while (1)
  {
    run_due();
    Task *t = pick_ready(false);
    if (t) { if (t != cur) { new_gap(); switch_to(t); } return; }
    // deadlines are events too
    u64 dl = ~0ull; for (Task *x : tasks) if (!x->done && !x->runnable && x->deadline < dl) dl = x->deadline;
    purge();
    if (dl != ~0ull) { if (evq.empty() || evq.top()->t > dl) { mono = dl; continue; } }
    bool bg_ok = !stop_at_background || dl != ~0ull;
    if (advance(bg_ok)) continue;
    if (dl != ~0ull) { mono = dl; continue; }      // only cancelled events were left
    // idle
    if (on_idle) { u64 before = evseq; in_kernel++; on_idle(); in_kernel--; if (evseq != before) continue; }
    Task *w = nullptr; for (Task *x : tasks) if (!x->done && x->in_wait) { w = x; break; }
    if (!w)
    {
      std::string s; for (Task *x : tasks) if (!x->done) { s += x->name; s += " "; }
      violation("deadlock", "every thread is blocked forever (%s)", s.c_str());
    }
    idle_hits++; w->interrupted = true; hash_add(0x1d1e);
  }
}

static void maybe_cancel()
{
  if (cur->cancel_pending && cur->cancel_enabled && !cur->is_main)
  {
    note("cancelled"); hash_add(0xca9ce1);
    cur->cancel_pending = false; cur->cancel_enabled = false;
    probe("thread_cancelled");
    pthread_exit((void *) -1);
  }
}

// returns true if pred holds, false on deadline; *interrupted when idle or signal
bool block_until(const std::function<bool()> &pred, u64 deadline, bool cancel_point, int *interrupted)
{
  if (in_kernel) internal_error("blocking in kernel context");
  while (1)
  {
    in_kernel++; bool ok = pred(); in_kernel--;
    if (ok) return true;
    if (mono >= deadline) return false;
    if (cur->poked && interrupted) { cur->poked = false; *interrupted = 1; return false; }
    cur->pred = &pred; cur->deadline = deadline; cur->cancel_point = cancel_point; cur->runnable = false; cur->in_wait = interrupted != nullptr;
    reschedule();
    cur->runnable = true; cur->pred = nullptr; cur->deadline = ~0ull; cur->in_wait = false;
    if (cancel_point) maybe_cancel();
    if (cur->poked && interrupted) { cur->poked = false; *interrupted = 1; return false; }
    if (cur->interrupted) { cur->interrupted = false; if (interrupted) { *interrupted = 1; return false; } deliver_signals(); }
  }
}

static void task_end(Task *t)
{
  t->done = true; alive--; many = alive > 1; hash_add(0xdead0000 + t->id);
  // hand over; this thread never runs again
  Task *self = t;
  while (1)
  {
    run_due();
    Task *n = pick_ready(false);
    if (n) { new_gap(); sh->switches++; hash_add(0x5100 + n->id); cur = n; unpark(n); return; }
    u64 dl = ~0ull; for (Task *x : tasks) if (!x->done && !x->runnable && x->deadline < dl) dl = x->deadline;
    purge();
    if (dl != ~0ull && (evq.empty() || evq.top()->t > dl)) { mono = dl; continue; }
    if (advance(!stop_at_background || dl != ~0ull)) continue;
    if (dl != ~0ull) { mono = dl; continue; }
    if (on_idle) { u64 before = evseq; in_kernel++; on_idle(); in_kernel--; if (evseq != before) continue; }
    Task *w = nullptr; for (Task *x : tasks) if (!x->done && x->in_wait) { w = x; break; }
    if (!w) violation("deadlock", "every thread is blocked forever");
    idle_hits++; w->interrupted = true; hash_add(0x1d1e);
  }
  (void) self;
}

static void park_forever();
struct Ender { Task *t; ~Ender() { task_end(t); park_forever(); } };
static void *task_main(void *p)
{
  Task *t = (Task *) p;
  park(t);
  Ender e{t};
  if (t->fn) t->retval = t->fn(t->arg); else t->body();
  return nullptr;
}
static void park_forever() { static int never = 0; while (1) futex_wait(&never, 0); }

static Task *make_task(bool detached)
{
  Task *t = new Task; t->id = tasks.size(); t->detached = detached; tasks.push_back(t); alive++; many = true;
  return t;
}
static void start_task(Task *t)
{
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_attr_setstacksize(&a, 512 * 1024);
  if (pthread_create(&t->real, &a, task_main, t)) internal_error("pthread_create");
  new_gap();
}
Task *spawn(std::function<void()> f, bool detached, const char *name)
{
  Task *t = make_task(detached); t->body = std::move(f); t->name = name;
  start_task(t);
  return t;
}
Task *last_lib_thread;
std::function<void(Task *)> on_main_join;
Task *lib_thread(void *(*fn)(void *), void *arg, bool detached)
{
  Task *t = last_lib_thread = make_task(detached); t->fn = fn; t->arg = arg; t->lib = true; t->name = "lib-thread";
  start_task(t);
  return t;
}
void join(Task *t)
{
  std::function<bool()> p = [t] { return t->done; };
  if (!t->done && cur->is_main && on_main_join) on_main_join(t);
  block_until(p, ~0ull, true, nullptr);
  t->joined = true;
}
void lib_check_handle(Task *t, const char *op)
{
  bool known = false; for (Task *x : tasks) if (x == t) known = true;
  if (!known) violation("thread-handle", "%s on an invalid thread handle", op);
  if (t->joined) violation("thread-handle", "%s on a thread that was already joined", op);
  if (t->detached && t->done) violation("thread-handle", "%s on a detached thread that has ended (handle no longer valid)", op);
}
void lib_detach(Task *t) { t->detached = true; }
bool lib_is_detached(Task *t) { return t->detached; }
void lib_cancel(Task *t) { t->cancel_pending = true; }
void *lib_retval(Task *t) { return t->retval; }
void lib_cancel_enable(bool on, bool *old) { *old = cur->cancel_enabled; cur->cancel_enabled = on; }
void cancel_check() { maybe_cancel(); }
int threads_unjoined() { int n = 0; for (Task *t : tasks) if (t->lib && !(t->done && (t->joined || t->detached))) n++; return n; }

void sleep_ns(u64 ns, bool cp)
{
  std::function<bool()> never = [] { return false; };
  if (cp) maybe_cancel();
  block_until(never, mono + ns, cp, nullptr);
}

// ---------------------------------------------------------------- signals
void raise_signal(int sig)
{
  pending_signals.push_back(sig);
  main_task.interrupted = true;       // if it waits, it is interrupted (handled in deliver_signals)
}
void poke_main() { main_task.poked = true; }
// runs handlers in the context of the main task; returns number of handlers run
int deliver_signals()
{
  if (!cur->is_main || in_kernel) return 0;
  int n = 0;
  main_task.interrupted = false;
  while (!pending_signals.empty())
  {
    int s = pending_signals.front(); pending_signals.erase(pending_signals.begin());
    auto h = sig_handler_of(s);
    hash_add(0x516000 + s);
    note("signal %d", s);
    if (h == SIG_DFL_) violation("killed", "the process is killed by signal %d (default action)", s);
    if (h == SIG_IGN_) continue;
    n++;
    in_kernel++; h(s); in_kernel--;
  }
  return n;
}
bool signals_pending() { return !pending_signals.empty(); }

void sim_init_run()
{
  main_task.is_main = true; main_task.name = "main"; main_task.id = 0;
}

// Called on library basic block edges.
bool many;
// what all threads share: the static variables. Another thread may run at each use of one, much more often than elsewhere
extern "C" char __data_start[], _end[];
bool is_shared(const void *p) { return (const char *) p >= __data_start && (const char *) p < _end; }
void on_shared() { if (!in_kernel && preempt_scale && alive > 1 && choose(SCHED, 3) == 2) preempt(); }
void on_access() { if (!in_kernel && --gap <= 0) { if (preempt_scale) preempt(); else gap = INT64_MAX; } }
void on_edge()
{
  edges++;
  if (__builtin_expect(edges - edge_mark > edge_cap, 0))
    violation("livelock", "the library executed %llu basic blocks without making progress", (unsigned long long) edge_cap);
  if (alive > 1 && !in_kernel && --gap <= 0) { if (preempt_scale) preempt(); else gap = INT64_MAX; }
}

}
