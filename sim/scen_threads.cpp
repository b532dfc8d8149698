// C22: independent loops on several threads. C25: library clients against library servers.
#include "scen.h"
#include "internal.h"
#include <ctime>
#include <netdb.h>
using namespace sim;

namespace {
struct Th; struct TW;
TW *M;
struct Th { int id; int tid = -1; bool aborted = false, ever = false, looping = false, over = false; int open = 0; u64 entered = 0, seen_now = 0; int may_abort = 0; u64 calls = 0; std::vector<struct Ev *> evs; bool may_end = true; };
struct TW { std::vector<Th *> th; std::map<int, Th *> by_tid; u64 real0; };
void here(Th *t, const char *what)
{
  CHECK(cur_id() == t->tid, "thread-foreign-callback", "a %s of thread %d is called back on thread %d", what, t->id, cur_id());
  CHECK(t->looping, "thread-callback-outside", "a %s of thread %d is called back outside of its loop", what, t->id);
  t->calls++; progress(); nontrivial();
  u64 n = reactor_now();
  CHECK(n >= t->entered && n <= realtime(), "thread-now", "thread %d reads loop time %llu, its iteration began at %llu and it is %llu", t->id, (unsigned long long) n, (unsigned long long) t->entered, (unsigned long long) realtime());
  CHECK(!t->seen_now || n == t->seen_now, "thread-now", "thread %d reads two loop times within one iteration", t->id);
  t->seen_now = n;
  if (t->may_abort && !t->aborted && choose(PLAN, 40) == 39) { t->may_abort = 0; t->aborted = t->ever = true; note("thread %d asks its loop to stop", t->id); probe("stop_requested"); reactor_abort(); }
}
void hooks()
{
  on_epoll_enter = [] { auto i = M->by_tid.find(cur_id()); if (i != M->by_tid.end()) { i->second->entered = realtime(); i->second->seen_now = 0; } };
  on_idle = [] { std::string s; for (Th *t : M->th) if (t->looping) { s += " thread " + std::to_string(t->id) + " (" + std::to_string(t->open) + " open sources" + (t->aborted ? ", stop requested)" : ")"); }
    violation("thread-loop-stuck", "nothing can happen any more and loops still run:%s", s.c_str()); };
}
void run_loop(Th *t)
{
  t->looping = true; progress(); reactor_loop(); t->looping = false; progress();
  CHECK(t->aborted || t->open == 0, "thread-loop-ended", "the loop of thread %d ends although %d of its sources are open and nobody asked it to stop", t->id, t->open);
  if (!t->aborted) probe("loop_ended_by_itself");
}

// ---------------------------------------------------------------- sources of C22
struct Tm { Th *t; timer *m; u32 left; u64 due, interval; bool open = true; };
void tm_cb(reactor_event *e)
{
  Tm *x = (Tm *) e->state; here(x->t, "timer");
  CHECK(x->open, "thread-closed-source", "a timer is called after it was destructed"); CHECK(mono >= x->due, "thread-timer-early", "a timer expires early"); if (x->interval) x->due += x->interval;
  if (--x->left == 0) { x->open = false; x->t->open--; timer_destruct(x->m); return; }
  if (!x->interval) { u64 d = 1 + choose(PLAN, 3000000); x->due = mono + d; timer_set(x->m, d, 0); }
}
struct Ev { Th *t; event *e; u64 want, sent = 0, got = 0; bool open = false, closed = false; int busy = 0; };
void ev_cb(reactor_event *e)
{
  Ev *x = (Ev *) e->state; here(x->t, "event"); x->got += e->data; CHECK(x->got <= x->sent, "thread-event", "an event of thread %d is told of %llu signals, %llu were raised", x->t->id, (unsigned long long) x->got, (unsigned long long) x->sent);
  if (x->got == x->want) { x->open = false; x->closed = true; x->t->open--; event_close(x->e); }
}
bool ev_signal(Ev *x) { if (!x->open || x->closed || x->sent >= x->want) return false; x->sent++; x->busy++; event_signal(x->e); x->busy--; return true; }
struct End { Th *t; stream *s; int fd, id; End *other; u64 n_out, out = 0, n_in, in = 0; bool drained = false, open = false, closed = false; u32 chunk; SSL_CTX *ctx; bool ready() { return in == n_in && out == n_out && drained; } };
void end_close(End *x) { x->open = false; x->closed = true; x->t->open--; note("end %d closed by thread %d", x->id, x->t->id); stream_destruct(x->s); }
void end_go(End *x)
{
  if (x->out < x->n_out) { std::string d; size_t n = std::min<u64>(x->n_out - x->out, 1 + choose(PLAN, x->chunk)); fill(d, x->id, x->out, n); x->out += n; stream_write(x->s, data_construct(d.data(), n)); stream_flush(x->s); stream_notify(x->s); }
}
void end_cb(reactor_event *e)
{
  End *x = (End *) e->state; here(x->t, "stream"); CHECK(x->open, "thread-closed-source", "a stream is called after it was destructed");
  if (e->type == STREAM_READ)
  {
    struct data d = stream_read(x->s); const uint8_t *p = (const uint8_t *) data_base(d); size_t n = data_size(d);
    CHECK(x->in + n <= x->other->out, "thread-stream-data", "a stream holds %llu bytes, its peer wrote %llu", (unsigned long long) (x->in + n), (unsigned long long) x->other->out);
    for (size_t i = 0; i < n; i++) CHECK(p[i] == pat(x->other->id, x->in + i), "thread-stream-data", "byte %llu received by thread %d is not the one thread %d wrote", (unsigned long long) (x->in + i), x->t->id, x->other->t->id);
    x->in += n; stream_consume(x->s, n);
  }
  else if (e->type == STREAM_WRITE) { if (x->out == x->n_out) x->drained = true; else end_go(x); }
  else { CHECK(x->other->closed || x->other->t->ever, "thread-stream-close", "a stream of thread %d is told of a close although thread %d has not closed its end", x->t->id, x->other->t->id); if (!x->other->t->ever) CHECK(x->in == x->n_in, "thread-stream-data", "a stream is closed before everything arrived"); end_close(x); return; }
  if (x->ready() && x->other->ready()) end_close(x);
}
struct As { Th *t; async *a; u64 delay; bool worked = false, open = true; };
void as_cb(reactor_event *e)
{
  As *x = (As *) e->state;
  if (e->type == ASYNC_CALL) { CHECK(cur_id() != x->t->tid, "thread-async", "a background call runs on the thread of the loop"); if (x->delay) sim_usleep(x->delay); x->worked = true; return; }
  here(x->t, "background call"); CHECK(x->worked && x->open, "thread-async", "a background call completes before its work or twice"); x->open = false; x->t->open--; async_destruct(x->a);
}
struct Sv { Th *t; server *s; int fd; Listener *l; bool tls; std::vector<Wire *> w; std::vector<u32> n, got; u64 total = 0, answered = 0; timer *linger; bool open = true; u64 born; std::vector<server_request *> held; };
void sv_answer(Sv *x, server_request *r)
{
  char b[200]; snprintf(b, sizeof b, "thread %d %.*s", x->t->id, (int) std::min<size_t>(100, data_size(r->target)), (const char *) data_base(r->target));
  x->answered++; server_ok(r, data_string("text/plain"), data_construct(b, strlen(b)));
}
void sv_answer_one(Sv *x) { size_t i = choose(PLAN, x->held.size()); server_request *r = x->held[i]; x->held.erase(x->held.begin() + i); sv_answer(x, r); }
void sv_cb(reactor_event *e)
{
  Sv *x = (Sv *) e->state; here(x->t, "server"); CHECK(x->open, "thread-closed-source", "a server is called after it was destructed");
  server_request *r = (server_request *) e->data;  note("request %.*s", (int) data_size(r->target), (const char *) data_base(r->target));
  if (choose(PLAN, 3) == 2) { x->held.push_back(r); probe("request_held"); } else sv_answer(x, r);
  if (!x->held.empty() && choose(PLAN, 3) == 2) sv_answer_one(x);
}
bool sv_done(Sv *x)
{
  bool all = true;
  for (size_t i = 0; i < x->w.size(); i++)
  {
    Wire *w = x->w[i]; u32 got = 0; size_t p = 0;
    while (1)
    {
      size_t e = w->in.find("\r\n\r\n", p); if (e == std::string::npos) break;
      std::string h = w->in.substr(p, e + 2 - p); char want[100]; snprintf(want, sizeof want, "thread %d /%zu/%u", x->t->id, i, got);
      CHECK(h.compare(0, 17, "HTTP/1.1 200 OK\r\n") == 0, "thread-server-response", "client %zu of thread %d: response %u is not the answer", i, x->t->id, got);
      size_t d = h.find("Date: "); struct tm tm; memset(&tm, 0, sizeof tm); CHECK(d != std::string::npos && strptime(h.c_str() + d + 6, "%a, %d %b %Y %H:%M:%S GMT\r\n", &tm), "thread-server-date", "client %zu of thread %d: response %u has no valid date", i, x->t->id, got);
      int64_t t = timegm(&tm); CHECK(t >= (int64_t) (x->born / 1000000000) && t <= (int64_t) (realtime() / 1000000000), "thread-server-date", "client %zu of thread %d: response %u is dated %lld seconds off", i, x->t->id, got, (long long) (t - (int64_t) (realtime() / 1000000000)));
      if (w->in.size() - e - 4 < strlen(want)) break;
      CHECK(w->in.compare(e + 4, strlen(want), want) == 0, "thread-server-response", "client %zu of thread %d: response %u carries '%.40s', expected '%s'", i, x->t->id, got, w->in.substr(e + 4, 40).c_str(), want);
      p = e + 4 + strlen(want); got++;
    }
    CHECK(got <= x->n[i], "thread-server-response", "more responses than requests"); x->got[i] = got; if (got < x->n[i]) all = false;
    CHECK(!(w->eof || w->reset) || !x->open, "thread-server-closed", "client %zu of thread %d loses its connection", i, x->t->id);
  }
  return all;
}
void sv_end(Sv *x) { bool after = choose(PLAN, 2), lo = x->t->looping; x->t->looping = true; if (!after) while (!x->held.empty()) sv_answer_one(x); x->open = false; server_destruct(x->s); while (!x->held.empty()) { probe("answered_after_destruct"); sv_answer_one(x); } x->t->looping = lo; timer_destruct(x->linger); }
void linger_cb(reactor_event *e) { Sv *x = (Sv *) e->state; here(x->t, "timer"); while (!x->held.empty()) sv_answer_one(x); if (sv_done(x)) { x->t->open--; sv_end(x); } else timer_set(x->linger, 20000000, 0); }

struct Keep { std::vector<void *> mem; ~Keep() { for (void *p : mem) free(p); } void *get(size_t n) { void *p = malloc(n); memset(p, 0xA5, n); mem.push_back(p); return p; } };
void thread_main(Th *t, std::vector<End *> ends, u32 lives)
{
  t->tid = cur_id(); M->by_tid[t->tid] = t;
  for (u32 life = 0; life < lives; life++)
  {
    Keep k; std::vector<Tm *> tms; std::vector<As *> ass; std::vector<Sv *> svs; t->aborted = false; t->may_abort = choose(CFG, 4) == 3;
    note("thread %d constructs a reactor", t->id); reactor_construct(); progress();
    CHECK(reactor_now() <= realtime(), "thread-now", "loop time ahead of the clock");
    u32 n = choose(PLAN, 4);
    while (n--) { Tm *x = new Tm{t, (timer *) k.get(sizeof(timer)), 1 + choose(PLAN, 5), 0, 0}; tms.push_back(x); t->open++; timer_construct(x->m, tm_cb, x); u64 d = choose(PLAN, 4000000); x->interval = choose(PLAN, 2) ? 200000 + choose(PLAN, 5000000) : 0; x->due = mono + d; timer_set(x->m, d, x->interval); }
    if (life == 0)
    {
      for (Ev *x : t->evs) { x->e = (event *) k.get(sizeof(event)); event_construct(x->e, ev_cb, x); event_open(x->e); t->open++; x->open = true; }
      for (End *x : ends) { x->s = (stream *) k.get(sizeof(stream)); stream_construct(x->s, end_cb, x); x->open = true; t->open++; stream_open(x->s, x->fd, STREAM_READ, x->ctx); end_go(x); stream_notify(x->s); }
    }
    n = choose(PLAN, 2); while (n--) { As *x = new As{t, (async *) k.get(sizeof(async)), choose(PLAN, 3000)}; ass.push_back(x); t->open++; async_construct(x->a, as_cb, x); async_call(x->a); }
    if (choose(PLAN, 2))
    {
      Sv *x = new Sv{t, (server *) k.get(sizeof(server))}; svs.push_back(x); x->tls = choose(PLAN, 4) == 3; x->l = new_listener(&x->fd); x->born = realtime(); t->open++;
      server_construct(x->s, sv_cb, x); server_open(x->s, x->fd, x->tls ? tls_srv(0) : nullptr); x->linger = (timer *) k.get(sizeof(timer)); timer_construct(x->linger, linger_cb, x); timer_set(x->linger, 1000000, 0);
      u32 c = 1 + choose(PLAN, 3);
      for (u32 i = 0; i < c; i++) { Wire *w = new Wire; x->w.push_back(w); u32 q = 1 + choose(PLAN, 4); x->n.push_back(q); x->got.push_back(0); x->total += q; Sock *p = peer_connect(x->l, random_net()); w->attach(p, x->tls, false, 0); for (u32 j = 0; j < q; j++) { char b[64]; snprintf(b, sizeof b, "GET /%u/%u HTTP/1.1\r\nHost: x\r\n\r\n", i, j); std::string r = b; u64 d = choose(NET, 3) ? 0 : between(NET, 0, 3000000); if (j && d && x->tls) d = 0; if (d) { u64 at_ = mono + d * (j + 1); at(at_, [w, r] { w->send(r); }); for (u32 z = j + 1; z < q; z++) { snprintf(b, sizeof b, "GET /%u/%u HTTP/1.1\r\nHost: x\r\n\r\n", i, z); std::string r2 = b; at(at_ + 1 + z, [w, r2] { w->send(r2); }); } break; } else w->send(r); } }
    }
    run_loop(t);
    if (t->aborted) for (Ev *x : t->evs) { x->closed = true; while (x->busy) sim_usleep(50); if (x->open) { x->open = false; t->open--; } event_destruct(x->e); }
    for (Tm *x : tms) { if (x->open) { t->open--; x->open = false; timer_destruct(x->m); } delete x; }
    for (As *x : ass) { if (x->open) { t->open--; x->open = false; async_destruct(x->a); } delete x; }
    for (Sv *x : svs) { if (x->open) { t->open--; sv_end(x); } else CHECK(sv_done(x), "thread-server-response", "responses are missing"); for (Wire *w : x->w) w->destroy(); }
    if (life == 0) for (End *x : ends) if (x->open) end_close(x);
    t->evs.clear();
    CHECK(t->open == 0, "harness", "open count %d", t->open);
    note("thread %d destructs its reactor", t->id); reactor_destruct(); progress();
  }
  t->over = true;
}
void run_threads()
{
  TW w; M = &w; random_env();
  if (choose(PLAN, 2)) { u64 day = 86400ull * 1000000000; real_off += day - realtime() % day - choose(PLAN, 4000) * 1000000ull; }   // about midnight
  preempt_scale = 1 + choose(CFG, 7); w.real0 = realtime(); hooks();
  size_t fds = fd_count(), heap = lib_blocks(); u64 ssl = ssl_live;
  u32 n = 2 + choose(CFG, 2), lives[3], pairs = choose(CFG, 4); std::vector<End *> ends[3]; std::vector<Ev *> evs;
  for (u32 i = 0; i < n; i++) { Th *t = new Th; t->id = i; w.th.push_back(t); lives[i] = 1 + choose(CFG, 3); u32 k = choose(CFG, 3); while (k--) { Ev *x = new Ev{t, nullptr, 1 + (u64) choose(CFG, 12)}; t->evs.push_back(x); evs.push_back(x); } }
  for (u32 i = 0; i < pairs; i++)
  {
    u32 a = choose(CFG, n), b = (a + 1 + choose(CFG, n - 1)) % n; bool tls = choose(CFG, 4) == 3; u32 v = choose(CFG, 4);
    NetCfg c = random_net(!tls); Sock *p = new Sock, *q = new Sock; sock_pair(p, q, c); p->nonblock = q->nonblock = true;
    u64 size[2] = {size_pick(CFG, pick(CFG, {2000, 100, 60000})), size_pick(CFG, pick(CFG, {2000, 100, 60000}))};
    End *x = new End{w.th[a], nullptr, fd_install(p), (int) i * 2, nullptr, size[0]}, *y = new End{w.th[b], nullptr, fd_install(q), (int) i * 2 + 1, x, size[1]}; x->other = y; x->n_in = size[1]; y->n_in = size[0]; x->chunk = y->chunk = pick(CFG, {500, 50000, 40});
    x->ctx = tls ? tls_srv(v) : nullptr; y->ctx = tls ? tls_cli(v) : nullptr; ends[a].push_back(x); ends[b].push_back(y);
  }
  sample("threads=%u pairs=%u events=%zu preempt=%d", n, pairs, evs.size(), preempt_scale);
  std::vector<Task *> ts; for (u32 i = 0; i < n; i++) { auto e = ends[i]; Th *t = w.th[i]; u32 l = lives[i]; ts.push_back(spawn([t, e, l] { thread_main(t, e, l); }, false, "loop")); }
  u32 ns = 1 + choose(CFG, 2);
  for (u32 i = 0; i < ns; i++) ts.push_back(spawn([&evs] { while (1) { bool more = false; for (Ev *x : evs) { if (x->closed || x->sent >= x->want) continue; more = true; if (choose(PLAN, 2)) ev_signal(x); } if (!more) break; sim_usleep(1 + choose(PLAN, 400)); progress(); } }, false, "signaller"));
  for (Task *t : ts) join(t);
  for (Ev *x : evs) CHECK(x->closed, "thread-event", "an event has not received its signals");
  CHECK(fd_count() == fds, "thread-fd-leak", "all reactors are destructed, descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "thread-heap-leak", "all reactors are destructed, heap blocks left: %s", lib_blocks_list().c_str());
  CHECK(ssl_live == ssl || true, "thread-ssl-leak", "TLS sessions left");
  on_idle = nullptr; on_epoll_enter = nullptr;
}
Reg r22("C22", "threads", run_threads);
}

// ------------------------------------------------------------------ C25
namespace {
struct Lc; struct Ls;
struct IW { std::vector<Lc *> cl; std::vector<Ls *> sv; u32 clients_left = 0; bool faults; std::vector<Wire *> rude; u64 kills = 0, activity = 0; } *I;
std::string body_of(int c, u32 k, u32 size) { std::string s; fill(s, 1000 * c + k, 7, size); return s; }
// a server answering at once, from a timer, from a worker thread or after the next request
struct Job { Ls *s; server_request *r; std::string target, body; async a; timer t; int id = -1; u32 k = 0, size = 0; };
struct Ls { Th *t; int id; u32 port; bool tls; server s; timer tick; std::vector<Job *> jobs; bool open = false; u64 requests = 0, seen = 0; u32 idle = 0; };
void job_body(Job *j) { int n = sscanf(j->target.c_str(), "/c%d/r%u/%u", &j->id, &j->k, &j->size); CHECK(n == 3, "interop-request", "the server is given a request for '%.60s', which no client sent", j->target.c_str()); j->body = body_of(j->id, j->k, j->size); }
void job_answer(Job *j)
{
  if (j->body.size() != j->size || j->id < 0) job_body(j);
  struct data t = data_construct((const char *) data_base(j->r->target), data_size(j->r->target)); CHECK(j->target == std::string((const char *) data_base(t), data_size(t)), "interop-request-stale", "a request that is not answered yet reads another target");
  server_request *r = j->r; Ls *s = j->s; s->jobs.erase(std::find(s->jobs.begin(), s->jobs.end(), j)); char *b = (char *) malloc(j->body.size() + 1); memcpy(b, j->body.data(), j->body.size());
  if (j->size % 7 == 3) server_respond(r, data_string("203 Other"), data_string("a/b"), data_construct(b, j->size)); else server_ok(r, data_string("a/b"), data_construct(b, j->size));
  free(b);
}
void job_async(reactor_event *e)
{
  I->activity++;
  Job *j = (Job *) e->state;
  if (e->type == ASYNC_CALL) { u32 d = choose(PLAN, 800); if (d) sim_usleep(d); job_body(j); return; }
  here(j->s->t, "background call"); j->s->t->open--; async_destruct(&j->a); job_answer(j); delete j;
}
void job_timer(reactor_event *e) { I->activity++; Job *j = (Job *) e->state; here(j->s->t, "timer"); j->s->t->open--; timer_destruct(&j->t); job_answer(j); delete j; }
void ls_cb(reactor_event *e)
{
  I->activity++;
  Ls *s = (Ls *) e->state; here(s->t, "server"); CHECK(s->open, "interop-after-shutdown", "a request is delivered after the shutdown"); s->requests++;
  server_request *r = (server_request *) e->data; Job *j = new Job; j->s = s; j->r = r; j->target.assign((const char *) data_base(r->target), data_size(r->target)); s->jobs.push_back(j);
  struct data v = http_field_lookup(r->fields, r->fields_count, data_string("host")); CHECK(data_equal(v, data_string("sim")), "interop-request", "a request has no or another host field");
  switch (choose(PLAN, 4))
  {
  case 0: case 1: job_answer(j); delete j; break;
  case 2: s->t->open++; timer_construct(&j->t, job_timer, j); timer_set(&j->t, choose(PLAN, 2000000), 0); probe("answered_by_timer"); break;
  case 3: s->t->open++; async_construct(&j->a, job_async, j); async_call(&j->a); probe("answered_by_worker"); break;
  }
}
void ls_tick(reactor_event *e)
{
  Ls *s = (Ls *) e->state; here(s->t, "timer");
  if (I->clients_left)
  {
    if (s->seen == I->activity) s->idle++; else { s->idle = 0; s->seen = I->activity; }
    CHECK(s->idle < 900, "interop-stall", "%u clients are not done, and nothing has happened for %u minutes", I->clients_left, 14u);
    timer_set(&s->tick, std::min<u64>(5000000ull << std::min(s->idle, 20u), 1000000000), 0); return;
  }
  s->open = false; s->t->open--; note("server %d closes", s->id);
  timer_destruct(&s->tick); server_destruct(&s->s);
}
void ls_open(Ls *s)
{
  server_construct(&s->s, ls_cb, s); timer_construct(&s->tick, ls_tick, s); s->open = true; s->t->open++;
  int fd = net_socket(net_resolve((char *) "sim", (char *) std::to_string(s->port).c_str(), AF_INET, SOCK_STREAM, AI_PASSIVE)); CHECK(fd >= 0, "interop-listen", "no listening socket"); note("server %d listens on %u", s->id, s->port);
  server_open(&s->s, fd, s->tls ? tls_srv(s->id) : nullptr); timer_set(&s->tick, 1000000, 0);
}
// a client: lookup in the background, connect, pipeline requests, read responses
struct Lc { Th *t; int id; Ls *sv; u32 n, sent = 0, got = 0, window, tries = 0; std::vector<u32> size; async a; timer retry; addrinfo *ai = nullptr; stream s; bool on = false, done = false, disturbed = false, refused = false; Sock *sock = nullptr; u64 sock_id = 0; };
void lc_connect(Lc *c);
void lc_finish(Lc *c) { c->done = true; c->t->open--; I->clients_left--; note("client %d done, %u of %u responses", c->id, c->got, c->n); timer_destruct(&c->retry); }
void lc_send(Lc *c)
{
  while (c->sent < c->n && c->sent < c->got + c->window)
  {
    char t[64]; snprintf(t, sizeof t, "/c%d/r%u/%u", c->id, c->sent, c->size[c->sent]);
    http_write_request(&c->s, data_string("GET"), data_string(t), data_string("sim"), data_null(), data_null()); c->sent++;
  }
  stream_flush(&c->s);
}
void lc_cb(reactor_event *e)
{
  I->activity++;
  Lc *c = (Lc *) e->state; here(c->t, "stream"); CHECK(c->on, "interop-closed-source", "a stream is called after it was closed");
  if (e->type == STREAM_CLOSE)
  {
    bool refused = !c->disturbed && (!c->sock->connected /* nobody listened yet */ || !c->sv->open);
    CHECK(c->disturbed || refused, "interop-closed", "client %d loses its connection although nothing happened to it (%u of %u responses)", c->id, c->got, c->n);
    probe(c->disturbed ? "connection_broken" : "connection_refused"); stream_close(&c->s); c->on = false; c->sock = nullptr;
    if (++c->tries > 12) { probe("client_gave_up"); lc_finish(c); return; }
    timer_set(&c->retry, 1000000 + choose(PLAN, 3000000), 0); return;
  }
  if (e->type != STREAM_READ) return;
  while (c->got < c->n)
  {
    int code; struct data st; http_field f[16]; size_t nf = 16; struct data in = stream_read(&c->s); if (!data_size(in)) break;
    ssize_t k = http_read_response(&c->s, &code, &st, f, &nf); CHECK(k != -1, "interop-response", "client %d: response %u is malformed", c->id, c->got); if (k < 0) break;
    struct data l = http_field_lookup(f, nf, data_string("Content-Length")); size_t len = strtoul(std::string((const char *) data_base(l), data_size(l)).c_str(), nullptr, 10);
    u32 size = c->size[c->got]; CHECK(code == (size % 7 == 3 ? 203 : 200) && len == size, "interop-response", "client %d: response %u has status %d and %zu bytes, expected %u bytes", c->id, c->got, code, len, size);
    if (data_size(in) < (size_t) k + len) break;
    CHECK(std::string((const char *) data_base(in) + k, len) == body_of(c->id, c->got, size), "interop-response", "client %d: the body of response %u is not the answer to its request", c->id, c->got);
    stream_consume(&c->s, k + len); c->got++; nontrivial();
  }
  if (c->got == c->n) { CHECK(data_size(stream_read(&c->s)) == 0, "interop-response", "client %d: data follows the last response", c->id); stream_close(&c->s); c->on = false; c->sock = nullptr; lc_finish(c); }
  else lc_send(c);
}
void lc_async(reactor_event *e)
{
  I->activity++;
  Lc *c = (Lc *) e->state;
  if (e->type == ASYNC_CALL) { c->ai = net_resolve((char *) "sim", (char *) std::to_string(c->sv->port).c_str(), AF_INET, SOCK_STREAM, 0); return; }
  here(c->t, "background call"); async_destruct(&c->a);
  if (!c->ai) { probe("lookup_failed"); if (++c->tries > 12) { lc_finish(c); return; } timer_set(&c->retry, 1000000, 0); return; }
  int fd = net_socket(c->ai); c->ai = nullptr; CHECK(fd >= 0, "interop-connect", "no socket"); c->sock = (Sock *) fd_get(fd); c->sock_id = c->sock->id; c->disturbed = false; c->refused = !c->sv->open || c->sock->err;
  stream_construct(&c->s, lc_cb, c); stream_open(&c->s, fd, STREAM_READ, c->sv->tls ? tls_cli(c->sv->id) : nullptr); c->on = true; c->sent = c->got; lc_send(c);
}
void lc_retry(reactor_event *e) { Lc *c = (Lc *) e->state; here(c->t, "timer"); lc_connect(c); }
void lc_connect(Lc *c) { async_construct(&c->a, lc_async, c); async_call(&c->a); }
void interop_thread(Th *t)
{
  t->tid = cur_id(); M->by_tid[t->tid] = t; reactor_construct(); progress();
  for (Ls *s : I->sv) if (s->t == t) ls_open(s);
  for (Lc *c : I->cl) if (c->t == t) { timer_construct(&c->retry, lc_retry, c); t->open++; if (choose(PLAN, 2)) timer_set(&c->retry, choose(PLAN, 3000000), 0); else lc_connect(c); }
  run_loop(t);
  CHECK(t->open == 0, "harness", "open count %d", t->open);
  reactor_destruct();
}
void kill_one()
{
  Kernel k; std::vector<Lc *> v; for (Lc *c : I->cl) if (c->on && c->sock && c->sock->id == c->sock_id) v.push_back(c);
  if (v.empty()) return;
  Lc *c = v[choose(FAULT, v.size())]; Sock *s = c->sock; c->disturbed = true; I->kills++; note("connection of client %d breaks", c->id);
  if (s->connecting) { fault("connect_refused"); s->fail(ECONNREFUSED); return; }
  if (s->dead || !s->peer) return;
  if (choose(FAULT, 2)) { fault("connection_reset"); Sock *p = s->peer; s->fail(ECONNRESET); if (p && !p->dead) p->fail(ECONNRESET); } else { fault("connection_timeout"); Sock *p = s->peer; s->fail(ETIMEDOUT); if (p && !p->dead) p->fail(ETIMEDOUT); }
}
void run_interop()
{
  TW w; M = &w; IW i; I = &i; random_env(); preempt_scale = choose(CFG, 7); hooks(); i.faults = choose(CFG, 3) != 0;
  resolve_hook = [](const char *, const char *serv, const addrinfo *h, addrinfo **res) -> int {
    u32 d = choose(PLAN, 3) ? 0 : choose(PLAN, 1000); if (d && !(h->ai_flags & AI_PASSIVE)) sleep_ns(d * 1000ull, true);
    if (I->faults && !(h->ai_flags & AI_PASSIVE) && choose(FAULT, 8) == 7) { fault("lookup_fails"); *res = nullptr; return EAI_AGAIN; }
    *res = make_addrinfo(AF_INET, SOCK_STREAM, h->ai_flags, atoi(serv), "127.0.0.1", 1 + choose(PLAN, 2)); return 0; };
  size_t fds = fd_count(), heap = lib_blocks(); u64 ssl = ssl_live, ai = addrinfo_live;
  u32 nt = 1 + choose(CFG, 3), ns = 1 + choose(CFG, 2), nc = 1 + choose(CFG, 5), maxbody = pick(CFG, {300, 40000, 3000, 10}), maxreq = pick(CFG, {4, 1, 12, 25});
  for (u32 k = 0; k < nt; k++) { Th *t = new Th; t->id = k; w.th.push_back(t); }
  for (u32 k = 0; k < ns; k++) { Ls *s = new Ls; s->t = w.th[choose(CFG, nt)]; s->id = k; s->port = 80 + k; s->tls = choose(CFG, 3) == 2; i.sv.push_back(s); }
  for (u32 k = 0; k < nc; k++) { Lc *c = new Lc; c->t = w.th[choose(CFG, nt)]; c->id = k; c->sv = i.sv[choose(CFG, ns)]; c->n = 1 + choose(CFG, maxreq); c->window = 1 + choose(CFG, 8); for (u32 j = 0; j < c->n; j++) c->size.push_back(size_pick(CFG, maxbody)); i.cl.push_back(c); }
  i.clients_left = nc;
  sample("threads=%u servers=%u clients=%u body<=%u faults=%d preempt=%d", nt, ns, nc, maxbody, i.faults, preempt_scale);
  std::function<void()> trouble;
  if (i.faults)
  {
    u32 n = choose(FAULT, 6); u64 t = mono; while (n--) { t += between(FAULT, 0, 4000000); at(t, [] { kill_one(); }, true); }
    n = choose(FAULT, 3); while (n--) { Ls *s = i.sv[choose(FAULT, ns)]; u64 when = mono + between(FAULT, 100000, 3000000); u32 how = choose(FAULT, 4); NetCfg c = random_net();
      at(when, [s, how, c] { if (!s->open) return; Listener *l = find_listener("port:" + std::to_string(s->port)); if (!l) return; Sock *p = peer_connect(l, c); if (!p) return; Wire *q = new Wire; I->rude.push_back(q); q->attach(p, s->tls && how != 2, false, s->id);
        static const char *junk[] = {"GET / HTT", "\x01\x02 bad\r\n\r\n", "POST /x HTTP/1.1\r\nNo", ""}; q->send(junk[how]); fault("rude_client"); if (how != 1) after(1500000, [q] { q->reset_now(); }, true); else after(2500000, [q] { q->close(); }, true); }, true); }
  }
  std::vector<Task *> ts; for (Th *t : w.th) ts.push_back(spawn([t] { interop_thread(t); }, false, "loop"));
  for (Task *t : ts) join(t);
  for (Lc *c : i.cl) { CHECK(c->done, "interop-unfinished", "client %d is not done", c->id); if (!c->tries) CHECK(c->got == c->n, "interop-unfinished", "client %d received %u of %u responses", c->id, c->got, c->n); else probe("client_retried"); }
  probe(nt > 1 ? "several_loops" : "one_loop");
  CHECK(fd_count() == fds, "interop-fd-leak", "all is closed, descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "interop-heap-leak", "all is closed, heap blocks left: %s", lib_blocks_list().c_str());
  for (Wire *q : i.rude) q->destroy();
  CHECK(ssl_live == ssl, "interop-ssl-leak", "all is closed, %lld TLS sessions are left", (long long) (ssl_live - ssl));
  CHECK(addrinfo_live == ai, "interop-addrinfo-leak", "all is closed, %lld address lists are left", (long long) (addrinfo_live - ai));
  CHECK(tasks_alive() == 1 && threads_unjoined() == 0, "interop-thread-leak", "threads are left");
  on_idle = nullptr; on_epoll_enter = nullptr; resolve_hook = nullptr;
}
Reg r25("C25", "interop", run_interop);
}
