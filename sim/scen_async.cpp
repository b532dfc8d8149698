// C07 background calls, C08 name lookups
#include "scen.h"
#include "internal.h"
#include <netdb.h>
using namespace sim;

// ------------------------------------------------------------------ C07
namespace {
struct Job {             // one start of one async object
  int obj; bool cancelled = false, running = false, worked = false, done = false; u64 *effect = nullptr; u32 work; Task *worker = nullptr, *thread = nullptr;
};
struct A { async *a = nullptr; int id; Job *cur = nullptr; int restarts = 0; };
struct Other { event e; EventFd *f; int fd; int owner; u64 raised = 0, got = 0; };
struct AW { std::vector<A *> v; std::map<int, A *> by_id; int next_id = 1, ops; std::vector<Job *> jobs; std::vector<Other *> others; Task *loop; bool slots; std::vector<async *> freed; int stopping = 0; } *AP;
void a_cb(reactor_event *e);
void a_start(A *x)
{
  Job *j = new Job; j->obj = x->id; j->work = choose(PLAN, 6); j->effect = (u64 *) calloc(1, 8); AP->jobs.push_back(j); x->cur = j;
  note("start async %d", x->id);
  last_lib_thread = nullptr; async_call(x->a); j->thread = last_lib_thread;
}
A *a_new()
{
  A *x = new A; x->id = AP->next_id++; AP->by_id[x->id] = x; AP->v.push_back(x);
  if (AP->slots && !AP->freed.empty()) { x->a = AP->freed.back(); AP->freed.pop_back(); } else x->a = (async *) malloc(sizeof(async));
  async_construct(x->a, a_cb, (void *) (uintptr_t) x->id);
  return x;
}
void after_stop(A *x, const char *how)
{
  Job *j = x->cur;
  if (!j) return;
  CHECK(!j->running, "async-still-running", "%s returned but the work is still running", how);
  j->cancelled = true; if (!j->done) probe(j->worked ? "stopped_after_work" : "stopped_before_work_ended");
  free(j->effect); j->effect = nullptr; x->cur = nullptr;
}
void a_cancel(A *x) { note("cancel async %d", x->id); AP->stopping++; async_cancel(x->a); AP->stopping--; after_stop(x, "cancel"); }
void a_destroy(A *x)
{
  note("destruct async %d", x->id);
  AP->stopping++; async_destruct(x->a); AP->stopping--; after_stop(x, "destruct");
  AP->by_id.erase(x->id); AP->v.erase(std::find(AP->v.begin(), AP->v.end(), x));
  if (AP->slots) AP->freed.push_back(x->a); else free(x->a);
  delete x;
}
void other_cb(reactor_event *e)
{
  Other *o = (Other *) e->state; o->got += e->data;
  CHECK(o->got <= o->raised, "async-foreign-signal", "an event that was opened after a call was cancelled receives a signal nobody raised");
}
void other_new() { Other *o = new Other; event_construct(&o->e, other_cb, o); event_open(&o->e); AP->others.push_back(o); }
void a_op(A *self)
{
  if (AP->ops <= 0) return;
  AP->ops--;
  A *x = self && choose(PLAN, 2) ? self : AP->v.empty() ? nullptr : AP->v[choose(PLAN, AP->v.size())];
  switch (choose(PLAN, 8))
  {
  case 0: case 1: if (x && !x->cur) a_start(x); break;
  case 2: case 3: if (x) { a_cancel(x); if (choose(PLAN, 2)) a_start(x); } break;
  case 4: if (x) a_destroy(x); break;
  case 5: if (AP->v.size() < 6) a_start(a_new()); break;
  case 6: if (AP->others.size() < 8) { other_new(); if (choose(PLAN, 2)) { AP->others.back()->raised++; event_signal(&AP->others.back()->e); } } break;
  case 7: if (!AP->others.empty()) { Other *o = AP->others.back(); AP->others.pop_back(); event_destruct(&o->e); delete o; } break;
  }
}
void a_cb(reactor_event *e)
{
  int id = (int) (uintptr_t) e->state;
  if (e->type == ASYNC_CALL)
  {
    CHECK(cur != AP->loop, "async-thread", "the work runs on the thread of the loop");
    auto i = AP->by_id.find(id);
    CHECK(i != AP->by_id.end(), "async-after-destruct", "the work of a destructed call runs");
    A *x = i->second; Job *j = x->cur;
    CHECK(j && !j->cancelled && !j->done, "async-after-cancel", "the work runs although the call was cancelled or completed");
    CHECK(!j->running && !j->worked, "async-twice", "the work of one call runs twice");
    struct Running { Job *j; Running(Job *j) : j(j) { j->running = true; j->worker = cur; } ~Running() { j->running = false; } } r(j);
    note("work of async %d", id);
    u32 k = j->work;
    while (k--) { if (k & 1) sim_usleep(choose(PLAN, 200)); else yield_point(); }
    *j->effect = 0x1234567 + id;
    j->worked = true;
    return;
  }
  CHECK(e->type == ASYNC_DONE, "async-type", "unknown callback type %d", e->type);
  CHECK(cur == AP->loop, "async-thread", "completion is reported on another thread");
  auto i = AP->by_id.find(id);
  CHECK(i != AP->by_id.end(), "async-after-destruct", "completion of a destructed call is reported");
  A *x = i->second; Job *j = x->cur;
  note("async %d done", id);
  CHECK(j, "async-after-cancel", "completion is reported although no call is outstanding");
  CHECK(!j->done, "async-done-twice", "completion is reported twice");
  CHECK(j->worked, "async-done-early", "completion is reported before the work ended");
  CHECK(*j->effect == 0x1234567 + (u64) id, "async-effect", "the effects of the work are not visible at completion");
  j->done = true; free(j->effect); j->effect = nullptr; x->cur = nullptr;
  if (x->restarts++ < 3 && choose(PLAN, 3) == 2) { probe("restarted_in_completion"); a_start(x); if (choose(PLAN, 2)) return; }
  if (choose(PLAN, 2)) a_op(x);
}
void run_async()
{
  AW w; AP = &w; random_env(); w.loop = cur; w.ops = choose(CFG, 30); w.slots = choose(CFG, 2); preempt_scale = choose(CFG, 12);
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  on_main_join = [](Task *t) { if (!AP->stopping) for (Job *j : AP->jobs) if (j->thread == t && !j->cancelled) CHECK(j->worked, "async-blocks-loop", "the loop is held up until the work of a call ends, although nobody stops it"); };
  u32 n = 1 + choose(CFG, choose(CFG, 25) == 24 ? 60 : 4), rounds = 1 + choose(CFG, 12);
  sample("objects=%u ops=%d preempt=%d rounds=%u reuse=%d", n, w.ops, preempt_scale, rounds, w.slots);
  for (u32 i = 0; i < n; i++) { A *x = a_new(); if (choose(PLAN, 4)) a_start(x); }
  nontrivial();
  for (u32 i = 0; i < rounds; i++)
  {
    u32 k = choose(PLAN, 3); while (k--) a_op(nullptr);
    if (choose(PLAN, 2)) step();
    else if (choose(PLAN, 2)) sim_usleep(choose(PLAN, 300));
  }
  w.ops = 0;
  u32 end = choose(PLAN, 3);
  if (end == 0)
  {
    quiesce();
    for (A *x : w.v) CHECK(!x->cur, "async-no-completion", "a started call has not completed when all is quiet (work %s)", x->cur->worked ? "ended" : x->cur->running ? "running" : "not begun");
    for (Other *o : w.others) CHECK(o->got == o->raised, "async-other-event", "an unrelated event lost a signal");
  }
  else if (end == 1)
  {
    for (Other *o : w.others) { event_destruct(&o->e); delete o; } w.others.clear();
    progress(); reactor_loop();
    for (A *x : w.v) CHECK(!x->cur, "async-loop-end", "the loop returns although a call is outstanding");
    probe("loop_ran_to_its_end");
  }
  while (!w.v.empty()) a_destroy(w.v[0]);
  for (Other *o : w.others) { event_destruct(&o->e); delete o; }
  quiesce();
  CHECK(fd_count() == base, "async-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "async-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  CHECK(tasks_alive() == 1, "async-thread-left", "a worker thread is left behind");
  CHECK(threads_unjoined() == 0, "async-thread-leak", "worker threads were neither joined nor detached");
  progress(); reactor_loop(); reactor_destruct();
  for (Job *j : w.jobs) delete j;
  for (async *a : w.freed) free(a);
}
Reg r07("C07", "async", run_async);
}

// ------------------------------------------------------------------ C08
namespace {
struct Q { int obj; std::string host, service; bool has_host, has_service; int family, type, protocol, flags; int err; u64 delay; int n; bool asked = false, answered = false, reported = false, superseded = false; addrinfo *res = nullptr; };
struct R { resolver *r = nullptr; int id; Q *cur = nullptr; addrinfo *last = nullptr; };
struct RSW { std::vector<R *> v; std::map<int, R *> by_id; std::map<std::string, Q *> by_service, by_host; int next_id = 1, nq = 0, ops; Task *loop; } *QP;
void r_cb(reactor_event *e);
void q_start(R *x)
{
  Q *q = new Q; q->obj = x->id; char t[32]; snprintf(t, sizeof t, choose(PLAN, 3) == 2 ? "1%04d" : "s%d", QP->nq++); q->service = t; q->has_service = true; q->has_host = choose(PLAN, 4) != 3;
  static const char *hosts[] = {"::1", "fe80::1%eth0", "127.0.0.1", "localhost", "LocalHost", "", "*", "0.0.0.0", "::", "host name", "host.", "/tmp/socket", "example.com:80"};
  switch (choose(PLAN, 4)) { case 0: q->host = "host.example"; break; case 1: q->host = std::string(1 + choose(PLAN, 200), 'a' + choose(PLAN, 26)); break; case 2: q->host = hosts[choose(PLAN, 13)]; break; default: q->host = std::string(1 + choose(PLAN, 3000), 'a' + choose(PLAN, 26)); }
  if (choose(PLAN, 8) == 7) q->service += std::string(choose(PLAN, 300), 's');
  if (q->has_host && choose(PLAN, 5) == 4) { q->has_service = choose(PLAN, 3) == 2; q->service = ""; q->host += std::to_string(QP->nq); QP->by_host[q->host] = q; probe("no_service"); }
  static const int fam[] = {0, AF_INET, AF_INET6}; q->family = fam[choose(PLAN, 3)]; q->type = pick(PLAN, {SOCK_STREAM, 0, SOCK_DGRAM}); q->protocol = pick(PLAN, {0, 0, IPPROTO_TCP, IPPROTO_UDP}); q->flags = pick(PLAN, {0, AI_PASSIVE, AI_NUMERICHOST, AI_NUMERICSERV, AI_CANONNAME, AI_ADDRCONFIG | AI_V4MAPPED, AI_PASSIVE | AI_NUMERICHOST | AI_NUMERICSERV});
  static const int errs[] = {0, 0, 0, EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY}; q->err = errs[choose(FAULT, 7)];
  if (q->err) fault("lookup_error");
  q->delay = between(NET, 0, pick(NET, {0, 1000, 100000, 5000000, 100000000})); q->n = 1 + choose(PLAN, 4);
  if (!q->service.empty()) QP->by_service[q->service] = q;
  if (x->cur) { x->cur->superseded = true; probe("superseded"); }
  x->cur = q; x->last = nullptr;
  char *h = q->has_host ? strdup(q->host.c_str()) : nullptr, *s = q->has_service ? strdup(q->service.c_str()) : nullptr;
  note("lookup %s by resolver %d", q->service.c_str(), x->id);
  resolver_lookup(x->r, h, s, q->family, q->type, q->protocol, q->flags);
  if (h) { memset(h, 'X', strlen(h)); free(h); } if (s) { memset(s, 'X', strlen(s)); free(s); }
}
void q_drop(R *x) { if (x->cur) x->cur->superseded = true; x->cur = nullptr; x->last = nullptr; }
R *r_new() { R *x = new R; x->id = QP->next_id++; x->r = (resolver *) malloc(sizeof(resolver)); QP->v.push_back(x); QP->by_id[x->id] = x; resolver_construct(x->r, r_cb, (void *) (uintptr_t) x->id); return x; }
void r_destroy(R *x) { note("destruct resolver %d", x->id); resolver_destruct(x->r); q_drop(x); QP->by_id.erase(x->id); QP->v.erase(std::find(QP->v.begin(), QP->v.end(), x)); free(x->r); delete x; }
void r_op(R *self)
{
  if (QP->ops <= 0) return;
  QP->ops--;
  R *x = self && choose(PLAN, 2) ? self : QP->v.empty() ? nullptr : QP->v[choose(PLAN, QP->v.size())];
  switch (choose(PLAN, 7))
  {
  case 0: case 1: case 2: if (x) q_start(x); break;
  case 3: if (x) { note("cancel resolver %d", x->id); resolver_cancel(x->r); q_drop(x); } break;
  case 4: if (x) r_destroy(x); break;
  case 5: if (QP->v.size() < 5) q_start(r_new()); break;
  case 6: if (x && !x->cur) { note("clear resolver %d", x->id); resolver_clear(x->r); x->last = nullptr; } break;
  }
}
bool list_ok(addrinfo *a) { int n = 0; for (; a; a = a->ai_next) { n++; if (!a->ai_addr) return false; } return n > 0; }
void r_cb(reactor_event *e)
{
  int id = (int) (uintptr_t) e->state; auto i = QP->by_id.find(id);
  CHECK(cur == QP->loop, "resolver-thread", "a result is reported on another thread");
  CHECK(i != QP->by_id.end(), "resolver-dead", "a destructed lookup reports a result");
  R *x = i->second; Q *q = x->cur;
  CHECK(q, "resolver-unasked", "a result is reported although no lookup is outstanding");
  CHECK(q->answered, "resolver-early", "a result is reported before the resolver answered this question");
  CHECK(!q->reported, "resolver-twice", "a result is reported twice");
  q->reported = true;
  CHECK(e->type == (q->err ? RESOLVER_FAILURE : RESOLVER_SUCCESS), "resolver-wrong", "lookup %s %s but %s is reported", q->service.c_str(), q->err ? "failed" : "succeeded", e->type == RESOLVER_SUCCESS ? "success" : "failure");
  addrinfo *a = (addrinfo *) e->data;
  if (!q->err) { CHECK(a == q->res, "resolver-wrong", "the address list reported is not the one the resolver returned for this question"); CHECK(list_ok(a), "resolver-wrong", "the address list is not usable"); x->last = a; }
  else CHECK(!a, "resolver-wrong", "a failed lookup reports an address list");
  x->cur = nullptr;
  if (choose(PLAN, 2)) r_op(x);
}
void run_resolver()
{
  RSW w; QP = &w; random_env(); w.loop = cur; w.ops = choose(CFG, 30); preempt_scale = choose(CFG, 12);
  resolve_hook = [](const char *node, const char *service, const addrinfo *h, addrinfo **res) -> int {
    CHECK(cur != QP->loop, "resolver-blocks", "the lookup blocks the loop");
    CHECK(service && *service ? QP->by_service.count(service) : node && QP->by_host.count(node), "resolver-question", "the resolver is asked for service '%s', which nobody asked for", service ? service : "(null)");
    Q *q = service && *service ? QP->by_service[service] : QP->by_host[node];
    CHECK((service != nullptr) == q->has_service && (!service || q->service == service), "resolver-question", "the resolver is asked for service '%s' instead of '%s'", service ? service : "(null)", q->has_service ? q->service.c_str() : "(null)");
    CHECK(!q->asked, "resolver-question", "the resolver is asked twice for one lookup"); q->asked = true;
    CHECK((node != nullptr) == q->has_host && (!node || q->host == node), "resolver-question", "the resolver is asked for host '%s' instead of '%s'", node ? node : "(null)", q->has_host ? q->host.c_str() : "(null)");
    CHECK(h && h->ai_family == q->family && h->ai_socktype == q->type && h->ai_protocol == q->protocol && h->ai_flags == q->flags, "resolver-question", "the resolver is asked with other hints");
    if (q->delay) sleep_ns(q->delay, true); else yield_point();
    q->answered = true;
    if (q->err) { *res = nullptr; return q->err; }
    *res = q->res = make_addrinfo(q->family == AF_INET6 ? AF_INET6 : AF_INET, q->type ? q->type : SOCK_STREAM, q->flags, 80, q->family == AF_INET6 ? "::1" : "127.0.0.1", q->n);
    return 0;
  };
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  u32 n = 1 + choose(CFG, choose(CFG, 25) == 24 ? 60 : 3), rounds = 1 + choose(CFG, 12);
  sample("resolvers=%u ops=%d preempt=%d rounds=%u", n, w.ops, preempt_scale, rounds);
  for (u32 i = 0; i < n; i++) { R *x = r_new(); if (choose(PLAN, 4)) q_start(x); }
  nontrivial();
  for (u32 i = 0; i < rounds; i++)
  {
    u32 k = choose(PLAN, 3); while (k--) r_op(nullptr);
    if (choose(PLAN, 2)) step(); else if (choose(PLAN, 2)) sim_usleep(choose(PLAN, 3000));
    for (R *x : w.v) if (x->last) CHECK(list_ok(x->last), "resolver-list", "an address list is gone before it was cleared");
  }
  w.ops = 0;
  if (choose(PLAN, 2))
  {
    quiesce();
    for (R *x : w.v) CHECK(!x->cur, "resolver-silent", "lookup %s is not reported when all is quiet (asked %d answered %d)", x->cur->service.c_str(), x->cur->asked, x->cur->answered);
  }
  while (!w.v.empty()) r_destroy(w.v[0]);
  quiesce();
  CHECK(addrinfo_live == 0, "resolver-leak", "%llu address lists are never released", (unsigned long long) addrinfo_live);
  CHECK(lib_blocks() == heap, "resolver-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  CHECK(fd_count() == base, "resolver-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(tasks_alive() == 1 && threads_unjoined() == 0, "resolver-thread-leak", "a worker thread is left behind");
  progress(); reactor_loop(); reactor_destruct();
}
Reg r08("C08", "resolver", run_resolver);
}
