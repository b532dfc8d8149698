// C05 timers, C04 loop time, C06 events
#include "scen.h"
using namespace sim;

// ------------------------------------------------------------------ C05
namespace {
struct T {
  timer t; bool alive = true, set = false; u64 a = 0, b = 0, t0 = 0, ti = 0; u64 count = 0; int id; u64 cbs = 0;
  u64 due(u64 now, u64 base) const { u64 f = base + std::max<u64>(t0, 1); if (now < f) return 0; return ti ? 1 + (now - f) / ti : 1; }
};
struct TimerWorld {
  std::vector<T *> ts; int ops_left = 0; u64 iter_enter = 0, iter_ret = 0; int next_id = 0; bool pow2 = false; int max_ops_cb = 0; bool returned_ok = false;
  T *rnd() { std::vector<T *> v; for (T *t : ts) if (t->alive) v.push_back(t); return v.empty() ? nullptr : v[choose(PLAN, v.size())]; }
} *W;

u64 rnd_t0()
{
  static const u64 v[] = {0, 1, 2, 999, 1000, 10000, 100000, 1000000, 10000000, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 2500000000ull, 4294967295ull, 4294967296ull, 4294967297ull, 8589934592ull, 10000000000ull};
  u32 m = choose(PLAN, 4);
  if (m == 0) { if (choose(PLAN, 12) == 11) { static const u64 h[] = {3600000000000ull, 86400000000000ull, 2147483648000000000ull, 4294967296000000000ull, 9007199254740993ull, 31536000000000000ull}; probe("long_delay"); return h[choose(PLAN, 6)]; } return v[choose(PLAN, sizeof v / sizeof *v)]; }
  if (m == 1) return choose(PLAN, 1000000);
  if (m == 2) return between(PLAN, 0, 3000000000ull);
  return 1000 * choose(PLAN, 100);
}
u64 rnd_ti0()
{
  static const u64 v[] = {0, 0, 0, 10000, 50000, 100000, 1000000, 999999999, 1000000000, 1000000001, 2000000000, 4294967296ull, 5000000007ull};
  u32 m = choose(PLAN, 3);
  if (m == 0) return v[choose(PLAN, sizeof v / sizeof *v)];
  if (m == 1) return 10000 + choose(PLAN, 5000000);
  return between(PLAN, 10000, 3000000000ull);
}
u64 rnd_ti() { u64 t = rnd_ti0(); return t ? std::max<u64>(t, 10 * knobs.cost) : 0; }
void on_timer(reactor_event *e);
void op_set(T *t) { t->t0 = rnd_t0(); t->ti = rnd_ti(); t->a = mono; note("set timer %d t0=%llu ti=%llu", t->id, (unsigned long long) t->t0, (unsigned long long) t->ti); if (t->set) probe("timer_rearmed"); timer_set(&t->t, t->t0, t->ti); t->b = mono; t->set = true; t->count = 0; }
void op_clear(T *t) { note("clear timer %d", t->id); timer_clear(&t->t); t->set = false; }
void op_destroy(T *t) { note("destroy timer %d", t->id); timer_destruct(&t->t); t->alive = false; W->ts.erase(std::find(W->ts.begin(), W->ts.end(), t)); delete t; }
T *op_new() { T *t = new T; t->id = W->next_id++; timer_construct(&t->t, on_timer, t); W->ts.push_back(t); return t; }
void random_op(T *self)
{
  if (W->ops_left <= 0) return;
  W->ops_left--;
  T *t = choose(PLAN, 3) == 0 && self ? self : W->rnd();
  switch (choose(PLAN, 8))
  {
  case 0: case 1: case 2: if (t) op_set(t); break;
  case 3: case 4: if (t) op_clear(t); break;
  case 5: if (t) op_destroy(t); break;
  case 6: if (W->ts.size() < 20) op_set(op_new()); break;
  case 7: if (t) { op_clear(t); op_set(t); } break;
  }
}
void on_timer(reactor_event *e)
{
  T *t = (T *) e->state; u64 n = e->data, now = mono;
  bool known = std::find(W->ts.begin(), W->ts.end(), t) != W->ts.end();
  CHECK(known, "timer-dead", "a callback is made for a timer that was destructed");
  note("expiration of timer %d: %llu", t->id, (unsigned long long) n);
  CHECK(e->type == TIMER_EXPIRATION, "timer-type", "timer callback with type %d", e->type);
  CHECK(t->set, "timer-cleared", "timer %d fires although it is not set", t->id);
  CHECK(n > 0, "timer-zero", "a callback reports no expiration");
  u64 hi = t->due(now, t->a), lo = t->due(std::max(W->iter_ret, t->b), t->b);
  t->count += n; t->cbs++;
  if (n > 1) probe("several_expirations");
  CHECK(t->count <= hi, "timer-early", "timer %d (t0=%llu ti=%llu) has reported %llu expirations, but only %llu instants were due at most", t->id, (unsigned long long) t->t0, (unsigned long long) t->ti, (unsigned long long) t->count, (unsigned long long) hi);
  CHECK(t->count >= lo, "timer-lost", "timer %d (t0=%llu ti=%llu) has reported %llu expirations, but at least %llu instants were due", t->id, (unsigned long long) t->t0, (unsigned long long) t->ti, (unsigned long long) t->count, (unsigned long long) lo);
  if (t->cbs > 40 && t->ti && t->ti < 50000000) { op_clear(t); nontrivial(); return; }
  u32 k = choose(PLAN, W->max_ops_cb + 1);
  while (k--) { random_op(std::find(W->ts.begin(), W->ts.end(), t) != W->ts.end() ? t : nullptr); }
}
void run_timers()
{
  TimerWorld w; W = &w;
  random_env();
  reactor_construct();
  u32 n = 1 + choose(CFG, 12); w.ops_left = choose(CFG, 60); w.max_ops_cb = choose(CFG, 4);
  bool aligned = choose(CFG, 2), steps = choose(CFG, 2); u32 iters = 20 + choose(CFG, 120);
  sample("timers=%u ops=%d aligned=%d steps=%d eintr=%u stall=%u/%llu", n, w.ops_left, aligned, steps, knobs.eintr, knobs.stall, (unsigned long long) knobs.stall_max);
  on_epoll_enter = [] { W->iter_enter = mono; };
  on_epoll_return = [](int r, const epoll_event *) { W->iter_ret = mono; W->returned_ok = r >= 0; };
  u64 at0 = rnd_t0();
  for (u32 i = 0; i < n; i++)
  {
    T *t = op_new();
    if (aligned) { t->t0 = at0; t->ti = choose(PLAN, 2) ? rnd_ti() : 0; t->a = mono; timer_set(&t->t, t->t0, t->ti); t->b = mono; t->set = true; note("set timer %d t0=%llu ti=%llu", t->id, (unsigned long long) t->t0, (unsigned long long) t->ti); }
    else if (choose(PLAN, 4)) op_set(t);
  }
  if (w.ops_left > 20) nontrivial();
  for (u32 i = 0; i < iters; i++)
  {
    u64 hits = idle_hits; w.returned_ok = false;
    reactor_loop_once(); progress();
    if (w.returned_ok)
      for (T *t : w.ts)
        if (t->set && t->b < w.iter_enter)
        {
          u64 lo = t->due(w.iter_enter, t->b);
          CHECK(t->count >= lo, "timer-missing", "timer %d (t0=%llu ti=%llu) has reported %llu expirations after an iteration that began when %llu instants were due", t->id, (unsigned long long) t->t0, (unsigned long long) t->ti, (unsigned long long) t->count, (unsigned long long) lo);
        }
    if (idle_hits != hits) { bool any = false; for (T *t : w.ts) any |= t->set && (t->ti || !t->count); CHECK(!any, "timer-stuck", "nothing is scheduled although a timer is set"); if (w.ops_left <= 0) break; random_op(nullptr); }
    if (steps && choose(FAULT, 6) == 5) step_clock((choose(FAULT, 2) ? 1 : -1) * (int64_t) pick(FAULT, {1, 1000, 1000000, 1000000000, 3600}) * (int64_t) pick(FAULT, {1, 7, 3600, 100000}));
    if (choose(PLAN, 4) == 3) random_op(nullptr);
    if (choose(FAULT, 8) == 7) { fault("loop_stall"); stall(between(FAULT, 0, pick(FAULT, {1000, 1000000, 100000000, 3000000000u}))); }
    if (choose(FAULT, 150) == 149) { fault("suspended"); static const u64 h[] = {3600000000000ull, 86400000000000ull, 300000000000000ull, 9007199254740993ull, 31536000000000000ull}; stall(h[choose(FAULT, 5)]); }
  }
  while (!w.ts.empty()) op_destroy(w.ts[0]);
  reactor_destruct();
  CHECK(fd_count() == 0, "timer-fd-leak", "descriptors left: %s", fd_list().c_str());
}
Reg r05("C05", "timers", run_timers, 3);

// timers of one batch manipulating each other: everything due at the same instant
void run_batch()
{
  TimerWorld w; W = &w;
  random_env(false); knobs.cost = pick(CFG, {0, 200});
  reactor_construct();
  on_epoll_enter = [] { W->iter_enter = mono; };
  on_epoll_return = [](int r, const epoll_event *) { W->iter_ret = mono; W->returned_ok = r >= 0; };
  u32 rounds = 1 + choose(CFG, 6), n = 2 + choose(CFG, 10); w.max_ops_cb = 1 + choose(CFG, 4);
  sample("batch rounds=%u timers=%u", rounds, n);
  for (u32 k = 0; k < rounds; k++)
  {
    while (w.ts.size() < n) op_new();
    w.ops_left = 10;
    for (T *t : std::vector<T *>(w.ts)) { t->t0 = pick(PLAN, {1000, 1000000, 0}); t->ti = choose(PLAN, 3) == 2 ? std::max<u64>(20000, 10 * knobs.cost) : 0; t->a = mono; timer_set(&t->t, t->t0, t->ti); t->b = mono; t->set = true; t->count = 0; }
    stall(2000000);
    nontrivial();
    for (int i = 0; i < 3; i++) { w.returned_ok = false; u64 h = idle_hits; reactor_loop_once(); progress(); if (idle_hits != h) break; }
    for (T *t : w.ts) if (t->set && w.returned_ok && t->b < w.iter_enter) CHECK(t->count >= t->due(w.iter_enter, t->b), "timer-missing", "timer %d was due but did not report", t->id);
  }
  while (!w.ts.empty()) op_destroy(w.ts[0]);
  reactor_destruct();
}
Reg r05b("C05", "batch", run_batch, 2);
}

// ------------------------------------------------------------------ C04
namespace {
struct NowModel {
  std::vector<std::pair<u64, u64>> seg;        // wall clock segments since the iteration began
  u64 start = 0; bool has = false; u64 val = 0;
  void begin() { seg.clear(); seg.push_back({realtime(), 0}); has = false; }
  void stepped(u64 before) { if (!seg.empty()) seg.back().second = before; seg.push_back({realtime(), 0}); }
  void read(u64 v, const char *where)
  {
    if (has) { CHECK(v == val, "now-changes", "the loop time changes within one iteration (%s): %llu then %llu", where, (unsigned long long) val, (unsigned long long) v); return; }
    bool ok = false; for (size_t i = 0; i < seg.size(); i++) { u64 hi = i + 1 == seg.size() ? realtime() : seg[i].second; ok |= v >= seg[i].first && v <= hi; }
    CHECK(ok, "now-stale", "the loop time %llu is not the wall clock between the start of this iteration (%llu) and now (%llu) (%s)", (unsigned long long) v, (unsigned long long) seg[0].first, (unsigned long long) realtime(), where);
    has = true; val = v;
  }
};
__thread NowModel *NM;
struct NowEnv { std::vector<NowModel *> all; } *NE;
void clock_jump() { u64 b = realtime(); step_clock((choose(FAULT, 2) ? 1 : -1) * (int64_t) pick(FAULT, {1, 1000, 1000000, 1000000000, 500}) * (int64_t) pick(FAULT, {1, 60, 86400})); for (NowModel *m : NE->all) m->stepped(b); probe("clock_stepped"); }
void reads(const char *where)
{
  u32 k = choose(PLAN, 4);
  while (k--)
  {
    NM->read(reactor_now(), where);
    if (choose(FAULT, 4) == 3) stall(choose(FAULT, 1000000));
    if (choose(FAULT, 6) == 5) clock_jump();
  }
}
struct NowSrc { event ev; timer t; };
void now_cb(reactor_event *e) { reads("in a callback"); }
void now_thread(u32 iters)
{
  NowModel m; NM = &m; NE->all.push_back(&m);
  reactor_construct(); m.begin();
  if (choose(PLAN, 2)) reads("before the first iteration");
  std::vector<NowSrc *> v; u32 n = 1 + choose(PLAN, 4);
  for (u32 i = 0; i < n; i++) { NowSrc *s = new NowSrc; event_construct(&s->ev, now_cb, s); event_open(&s->ev); timer_construct(&s->t, now_cb, s); timer_set(&s->t, choose(PLAN, 1000000), std::max<u64>(10 * knobs.cost, 1000 * (10 + choose(PLAN, 5000)))); v.push_back(s); }
  for (u32 i = 0; i < iters; i++)
  {
    if (choose(PLAN, 2)) event_signal(&v[choose(PLAN, n)]->ev);
    m.begin();
    reactor_loop_once(); progress();
    if (choose(PLAN, 2)) reads("after an iteration");
    if (choose(FAULT, 8) == 7) clock_jump();
    if (choose(PLAN, 20) == 19) { for (NowSrc *s : v) { event_close(&s->ev); timer_clear(&s->t); } reactor_destruct(); if (choose(FAULT, 2)) stall(1000000); reactor_construct(); m.begin(); reads("after constructing again"); for (NowSrc *s : v) { event_open(&s->ev); timer_set(&s->t, 1000, 1000000); } }
  }
  nontrivial();
  for (NowSrc *s : v) { event_destruct(&s->ev); timer_destruct(&s->t); delete s; }
  NE->all.erase(std::find(NE->all.begin(), NE->all.end(), &m));
  reactor_destruct();
}
void run_now()
{
  NowEnv e; NE = &e; random_env(); u32 threads = choose(CFG, 3), iters = 3 + choose(CFG, 25);
  if (choose(CFG, 3) == 2) real_off = (int64_t) pick(CFG, {0, 1, 999999999, 4294967295u}) * (int64_t) pick(CFG, {1, 2});
  preempt_scale = threads ? 10 : 0;
  sample("threads=%u iterations=%u eintr=%u stall=%u", threads, iters, knobs.eintr, knobs.stall);
  std::vector<Task *> t; for (u32 i = 0; i < threads; i++) t.push_back(spawn([iters] { now_thread(iters); }, false, "loop"));
  now_thread(iters);
  for (Task *x : t) join(x);
}
Reg r04("C04", "now", run_now);
}

// ------------------------------------------------------------------ C06
namespace {
struct Ev { event e; bool alive = true, open = false, gate = false; int inflight = 0; u64 raised = 0, started = 0, got = 0; int id; u32 cb_ops = 0; u64 cbs = 0; };
struct EvWorld { std::vector<Ev *> v; int ops = 0; u32 cbdepth = 0; } *EW;
void ev_signal(Ev *x) { if (!x->open || !x->gate) return; x->started++; x->inflight++; note("signal event %d", x->id); event_signal(&x->e); x->inflight--; x->raised++; }
void ev_cb(reactor_event *e)
{
  Ev *x = (Ev *) e->state; u64 n = e->data;
  note("event %d delivers %llu", x->id, (unsigned long long) n);
  CHECK(e->type == EVENT_SIGNAL, "event-type", "event callback with type %d", e->type);
  CHECK(x->open, "event-closed", "a closed event delivers a signal");
  CHECK(n > 0, "event-empty", "a callback without a signal");
  x->got += n; x->cbs++;
  CHECK(x->got <= x->started, "event-invented", "event %d has delivered %llu signals but only %llu were raised", x->id, (unsigned long long) x->got, (unsigned long long) x->started);
  if (EW->ops > 0 && x->cb_ops)
  {
    EW->ops--;
    switch (choose(PLAN, 6))
    {
    case 0: break;
    case 1: ev_signal(x); break;
    case 2: ev_signal(EW->v[choose(PLAN, EW->v.size())]); ev_signal(x); break;
    case 3: { Ev *y = EW->v[choose(PLAN, EW->v.size())]; if (y->open && !y->inflight) { y->gate = false; if (!y->inflight) { event_close(&y->e); y->open = false; if (choose(PLAN, 2)) { event_open(&y->e); y->open = y->gate = true; y->raised = y->started = y->got = 0; probe("event_reopened"); } } else y->gate = true; } break; }
    case 4: stall(choose(FAULT, 100000)); break;
    case 5: sim_usleep(choose(FAULT, 100)); break;
    }
  }
}
void run_events()
{
  EvWorld w; EW = &w; random_env(); reactor_construct();
  u32 n = 1 + choose(CFG, choose(CFG, 25) == 24 ? 60 : 4), threads = choose(CFG, 4); w.ops = choose(CFG, 30); preempt_scale = choose(CFG, 13);
  for (u32 i = 0; i < n; i++) { Ev *x = new Ev; x->id = i; x->cb_ops = choose(PLAN, 2); event_construct(&x->e, ev_cb, x); event_open(&x->e); x->open = x->gate = true; w.v.push_back(x); }
  sample("events=%u threads=%u preempt=%d ops=%d", n, threads, preempt_scale, w.ops);
  std::vector<Task *> ts;
  for (u32 t = 0; t < threads; t++)
    ts.push_back(spawn([n] {
      u32 k = choose(PLAN, 40);
      while (k--)
      {
        ev_signal(EW->v[choose(PLAN, n)]);
        switch (choose(PLAN, 4)) { case 0: break; case 1: yield_point(); break; case 2: sim_usleep(choose(PLAN, 50)); break; case 3: break; }
      }
    }, false, "signaler"));
  u32 iters = 5 + choose(CFG, 40);
  for (u32 i = 0; i < iters; i++)
  {
    if (choose(PLAN, 2)) { u32 k = 1 + choose(PLAN, 5); Ev *x = w.v[choose(PLAN, n)]; while (k--) ev_signal(x); nontrivial(); }
    step();
  }
  for (Task *t : ts) join(t);
  quiesce();
  for (Ev *x : w.v) if (x->open) CHECK(x->got == x->raised, "event-lost", "event %d: %llu signals raised, %llu delivered when all is quiet", x->id, (unsigned long long) x->raised, (unsigned long long) x->got);
  for (Ev *x : w.v) { event_destruct(&x->e); x->open = false; }
  quiesce();
  for (Ev *x : w.v) delete x;
  reactor_destruct();
  CHECK(fd_count() == 0, "event-fd-leak", "descriptors left: %s", fd_list().c_str());
}
Reg r06("C06", "events", run_events);

// raised before the loop runs, many at once, one thread, minimal plan
void run_events_burst()
{
  EvWorld w; EW = &w; random_env(false); reactor_construct();
  Ev *x = new Ev; x->id = 0; event_construct(&x->e, ev_cb, x); w.v.push_back(x);
  u32 rounds = 1 + choose(CFG, 5);
  for (u32 r = 0; r < rounds; r++)
  {
    if (!x->open) { event_open(&x->e); x->open = x->gate = true; x->raised = x->started = x->got = 0; }
    CHECK(event_is_open(&x->e), "event-open", "an opened event is not open");
    u32 k = pick(PLAN, {1, 2, 3, 33, 300, 1000}); nontrivial();
    for (u32 i = 0; i < k; i++) ev_signal(x);
    u32 it = choose(PLAN, 4); while (it--) step();
    if (choose(PLAN, 2)) { quiesce(); CHECK(x->got == x->raised, "event-lost", "%llu signals raised, %llu delivered when all is quiet", (unsigned long long) x->raised, (unsigned long long) x->got); }
    if (choose(PLAN, 2)) { event_close(&x->e); x->open = false; CHECK(!event_is_open(&x->e), "event-open", "a closed event is open"); }
  }
  quiesce();
  if (x->open) CHECK(x->got == x->raised, "event-lost", "%llu signals raised, %llu delivered when all is quiet", (unsigned long long) x->raised, (unsigned long long) x->got);
  event_destruct(&x->e); delete x; reactor_destruct();
}
Reg r06b("C06", "burst", run_events_burst);
}
