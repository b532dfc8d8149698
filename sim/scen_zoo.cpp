// C01: nothing is called after removal. C28: everything is returned. Raw handlers and a mix of all components.
#include "scen.h"
#include "internal.h"
#include <sys/inotify.h>
using namespace sim;

// ------------------------------------------------------------------ raw handlers
namespace {
struct RH { reactor_handler *h; int id, fd; EventFd *f; bool level; u64 got = 0; };
struct RZ { std::map<int, RH *> by_id; std::vector<RH *> v; std::vector<reactor_handler *> slots; int next = 1, ops; bool reuse; u32 batch = 0; } *R;
void raw_cb(reactor_event *e);
RH *raw_new()
{
  RH *x = new RH; x->id = R->next++; R->by_id[x->id] = x; R->v.push_back(x);
  if (R->reuse && !R->slots.empty()) { x->h = R->slots.back(); R->slots.pop_back(); probe("slot_reused"); } else x->h = (reactor_handler *) malloc(sizeof(reactor_handler));
  reactor_handler_construct(x->h, raw_cb, (void *) (uintptr_t) x->id);
  x->f = new EventFd(0, false); x->f->nonblock = true; x->fd = fd_install(x->f); x->level = choose(PLAN, 2);
  note("add %d fd %d", x->id, x->fd);
  reactor_add(x->h, x->fd, EPOLLIN | (x->level ? 0 : EPOLLET)); return x;
}
void raw_del(RH *x, bool self)
{
  note("remove %d fd %d%s", x->id, x->fd, x->f->count ? " (signaled)" : ""); if (x->f->count && !self) probe("removed_while_pending");
  reactor_delete(x->h, x->fd); sim_close(x->fd);
  R->by_id.erase(x->id); R->v.erase(std::find(R->v.begin(), R->v.end(), x));
  u32 how = choose(PLAN, 3); if (how == 0) reactor_handler_destruct(x->h);
  if (R->reuse) R->slots.push_back(x->h); else { memset((void *) x->h, 0xEE, sizeof *x->h); free(x->h); }
  delete x;
}
void raw_signal(RH *x) { Kernel k; x->f->count++; x->f->wake(EPOLLIN); }
void raw_op(RH *self)
{
  if (R->ops <= 0) return;
  R->ops--;
  RH *x = R->v.empty() ? nullptr : R->v[choose(PLAN, R->v.size())];
  switch (choose(PLAN, 6))
  {
  case 0: case 1: if (x) raw_del(x, x == self); break;
  case 2: if (x) { raw_del(x, x == self); RH *n = raw_new(); if (choose(PLAN, 4) == 3) raw_signal(n); } break;
  case 3: if (R->v.size() < 120) { RH *n = raw_new(); if (choose(PLAN, 2)) raw_signal(n); } break;
  case 4: if (x) raw_signal(x); break;
  case 5: if (self && std::find(R->v.begin(), R->v.end(), self) != R->v.end()) { raw_del(self, true); RH *n = raw_new(); if (choose(PLAN, 2)) raw_signal(n); } break;
  }
}
void raw_cb(reactor_event *e)
{
  int id = (int) (uintptr_t) e->state; auto i = R->by_id.find(id);
  CHECK(e->type == REACTOR_EPOLL_EVENT, "raw-type", "unknown callback type %d", e->type);
  CHECK(i != R->by_id.end(), "raw-after-remove", "handler %d is called after it was removed", id);
  RH *x = i->second;
  CHECK(x->f->count > 0, "raw-invented", "handler %d is called for descriptor %d, which is not ready (a notification of something removed reached it)", id, x->fd);
  x->f->count = 0; x->got++; nontrivial(); note("handler %d called", id);
  u32 n = choose(PLAN, 3); while (n--) raw_op(std::find(R->v.begin(), R->v.end(), x) != R->v.end() ? x : nullptr);
}
void run_raw()
{
  RZ w; R = &w; random_env(); w.ops = choose(CFG, 120); w.reuse = choose(CFG, 2);
  reactor_construct(); size_t base = fd_count();
  u32 n = pick(CFG, {3, 2, 8, 31, 33, 70, 100}), rounds = 1 + choose(CFG, 10);
  sample("handlers=%u ops=%d rounds=%u reuse=%d", n, w.ops, rounds, w.reuse);
  while (n--) raw_new();
  for (u32 r = 0; r < rounds; r++)
  {
    u32 dens = 1 + choose(PLAN, 4); for (RH *x : std::vector<RH *>(w.v)) if (choose(PLAN, dens) == 0) raw_signal(x);
    u32 k = choose(PLAN, 2); while (k--) raw_op(nullptr);
    k = choose(PLAN, 3); while (k--) step();
  }
  w.ops = 0; quiesce();
  for (RH *x : w.v) CHECK(!x->f->count, "raw-suppressed", "handler %d is not called although its descriptor is ready when all is quiet", x->id);
  while (!w.v.empty()) raw_del(w.v[0], false);
  progress(); reactor_loop(); CHECK(fd_count() == base, "raw-fd", "descriptors left: %s", fd_list().c_str());
  for (auto s : w.slots) free(s);
  reactor_destruct();
}
Reg r01a("C01", "raw_handlers", run_raw);
}

// ------------------------------------------------------------------ all components
namespace {
enum K { DESC, EVENT, TIMER, STREAM, TLS, NOTIFY, ASYNC, RESOLVER, SERVER, NK };
const char *kname[] = {"descriptor", "event", "timer", "stream", "encrypted stream", "notify", "async", "resolver", "server"};
struct Z {
  K k; int id; void *m; bool open = false; File *f = nullptr; int fd = -1;
  EventFd *ev = nullptr; u64 raised = 0, got = 0; u64 due = 0; bool interval = false;             // descriptor, event, timer
  Wire *w = nullptr; u64 sent = 0, in = 0; bool peer_left = false, told = false, req = false;      // streams
  std::deque<Inotify::Ev> *q = nullptr; std::set<std::string> paths;                              // notify
  bool running = false, worked = false, outstanding = false; int err = 0; addrinfo *res = nullptr; std::string service; u64 delay = 0;  // async, resolver
  Listener *l = nullptr; bool tls = false; u32 clients = 0, served = 0;                           // server
};
struct Hold { server_request *r; int owner; };
struct ZW { std::map<int, Z *> by_id; std::vector<Z *> v; std::vector<void *> slots; std::vector<Wire *> wires; std::vector<Hold> held; std::map<std::string, Z *> by_service; int next = 1, ops, depth = 0; bool reuse, faults; u32 self; Task *loop; std::vector<std::string> paths; int nserv = 0; bool ending = false; u64 tickets = 0; size_t limit; } *G;
const size_t SLOT = 2048;
bool leaks() { return G->self == 28; }
Z *z_of(reactor_event *e, const char *what)
{
  int id = (int) (uintptr_t) e->state; auto i = G->by_id.find(id);
  CHECK(i != G->by_id.end(), "called-after-destruct", "a %s is called after it was destructed (source %d)", what, id);
  Z *z = i->second; CHECK(z->open, "called-after-close", "a %s is called after it was closed (source %d)", kname[z->k], id);
  return z;
}
void z_op(Z *self);
void maybe_ops(Z *z) { int id = z->id; G->depth++; u32 n = choose(PLAN, 3); while (n--) { auto i = G->by_id.find(id); z_op(i == G->by_id.end() ? nullptr : i->second); } G->depth--; }
void desc_cb(reactor_event *e) { Z *z = z_of(e, "descriptor"); if (e->type == DESCRIPTOR_READ) { CHECK(z->ev->count, "called-unready", "descriptor source %d is told of input that is not there", z->id); z->ev->count = 0; nontrivial(); } maybe_ops(z); }
void event_cb(reactor_event *e) { Z *z = z_of(e, "event"); z->got += e->data; CHECK(z->got <= z->raised, "called-unready", "event source %d is told of %llu signals, %llu were raised", z->id, (unsigned long long) z->got, (unsigned long long) z->raised); nontrivial(); maybe_ops(z); }
void timer_cb(reactor_event *e) { Z *z = z_of(e, "timer"); CHECK(z->due && mono >= z->due, "called-unready", "timer source %d expires early or without being set", z->id); if (!z->interval) z->due = 0; nontrivial(); maybe_ops(z); }
void stream_cb(reactor_event *e)
{
  Z *z = z_of(e, "stream"); stream *s = (stream *) z->m;
  if (e->type == STREAM_READ) { size_t n = data_size(stream_read(s)); z->in += n; CHECK(z->in <= z->sent, "called-foreign-data", "stream source %d holds %llu bytes, its peer sent %llu", z->id, (unsigned long long) z->in, (unsigned long long) z->sent); stream_consume(s, n); nontrivial(); maybe_ops(z); }
  else if (e->type == STREAM_WRITE) maybe_ops(z);
  else { CHECK(!z->told || true, "told", "t"); CHECK(z->peer_left || z->w->tls_fail, "called-unready", "stream source %d is told of a close although its peer is there", z->id); z->told = true; if (choose(PLAN, 2)) { stream_close(s); z->open = false; } maybe_ops(z); }
}
void notify_cb(reactor_event *e)
{
  Z *z = z_of(e, "notify"); notify_event *v = (notify_event *) e->data; while (!z->q->empty() && z->q->front().wd < 0) z->q->pop_front();
  CHECK(!z->q->empty() && z->q->front().wd == v->id && z->q->front().mask == v->mask, "called-unready", "notify source %d is told of a change that was not reported", z->id); z->q->pop_front(); CHECK(vfs.count(v->path), "called-unready", "a change of an unknown path"); nontrivial(); maybe_ops(z);
}
void async_cb(reactor_event *e)
{
  if (e->type == ASYNC_CALL)
  {
    int id = (int) (uintptr_t) e->state; auto i = G->by_id.find(id); CHECK(i != G->by_id.end() && i->second->open, "called-after-close", "the work of a call that was cancelled or destructed runs (source %d)", id);
    Z *z = i->second; struct Run { Z *z; Run(Z *z) : z(z) { z->running = true; } ~Run() { z->running = false; } } run(z); if (z->delay) sim_usleep(z->delay); else yield_point(); z->worked = true; return;
  }
  Z *z = z_of(e, "async"); CHECK(z->worked, "called-unready", "completion before the work ended"); z->open = false; z->outstanding = false; nontrivial(); maybe_ops(z);
}
void resolver_cb(reactor_event *e) { Z *z = z_of(e, "resolver"); CHECK(z->worked && (e->type == RESOLVER_SUCCESS) == !z->err, "called-unready", "a lookup result before or other than the answer"); z->open = false; z->outstanding = false; nontrivial(); maybe_ops(z); }
void srv_cb(reactor_event *e)
{
  Z *z = z_of(e, "server"); server_request *r = (server_request *) e->data; nontrivial(); z->served++;
  u32 how = choose(PLAN, 4); int id = z->id;
  if (how == 0 || G->ending) { server_ok(r, data_null(), data_construct("x", 1)); }
  else if (how == 1) { maybe_ops(z); server_ok(r, data_null(), data_construct("x", 1)); return; }
  else if (how == 2) { G->held.push_back({r, id}); probe("request_held"); }
  else { server_close(r); server_release(r); }
  auto i = G->by_id.find(id); if (i != G->by_id.end()) maybe_ops(i->second);
}
void z_open(Z *z)
{
  note("open %s %d", kname[z->k], z->id);
  z->open = true;
  switch (z->k)
  {
  case DESC: z->ev = new EventFd(0, false); z->ev->nonblock = true; z->f = z->ev; z->fd = fd_install(z->f); descriptor_open((descriptor *) z->m, z->fd, (enum descriptor_mask) (choose(PLAN, 2) ? DESCRIPTOR_READ : DESCRIPTOR_READ | DESCRIPTOR_LEVEL)); break;
  case EVENT: z->raised = z->got = 0; event_open((event *) z->m); break;
  case TIMER: { u64 d = between(PLAN, 0, pick(PLAN, {0, 1000, 1000000, 50000000})); z->interval = choose(PLAN, 4) == 3; z->due = mono + d; u64 before = mono; timer_set((timer *) z->m, d, z->interval ? 20000000 + choose(PLAN, 10000000) : 0); (void) before; if (!z->interval) at(mono + d + 1, [] {}); break; }
  case STREAM: case TLS:
  {
    NetCfg n = random_net(z->k == STREAM); Sock *p = new_peer_pair(n, &z->fd); z->f = fd_get(z->fd); z->sent = z->in = 0; z->peer_left = z->told = false; u32 var = choose(PLAN, 4); bool srv = choose(PLAN, 2);
    z->w = new Wire; G->wires.push_back(z->w); if (choose(NET, 6) == 5) z->w->read_limit = 1 + choose(NET, 5000);
    stream_open((stream *) z->m, z->fd, STREAM_READ, z->k == TLS ? (srv ? tls_srv(var) : tls_cli(var)) : nullptr);
    z->w->attach(p, z->k == TLS, !srv, var); break;
  }
  case NOTIFY:
  {
    size_t b = inotifies.size(); std::string p = G->paths[choose(PLAN, G->paths.size())]; notify_watch((notify *) z->m, (char *) p.c_str(), IN_ALL_EVENTS);
    if (inotifies.size() > b) { auto *q = new std::deque<Inotify::Ev>(inotifies.back()->q); z->q = q; inotifies.back()->max_queued = G->limit; inotifies.back()->on_queued = [q](const Inotify::Ev &v) { q->push_back(v); }; } break;
  }
  case ASYNC: z->worked = false; z->outstanding = true; z->delay = choose(PLAN, 3) ? choose(PLAN, 300) : 0; async_call((async *) z->m); break;
  case RESOLVER: { z->worked = false; z->outstanding = true; z->err = choose(FAULT, 3) == 2 ? EAI_NONAME : 0; z->delay = choose(PLAN, 2) ? choose(PLAN, 2000) : 0; z->service = "s" + std::to_string(G->nserv++); G->by_service[z->service] = z; resolver_lookup((resolver *) z->m, (char *) "h", (char *) z->service.c_str(), AF_INET, SOCK_STREAM, 0, 0); break; }
  case SERVER: z->tls = choose(PLAN, 4) == 3; z->l = new_listener(&z->fd); z->f = fd_get(z->fd); z->served = z->clients = 0; server_open((server *) z->m, z->fd, z->tls ? tls_srv(0) : nullptr); break;
  default: break;
  }
}
void forget(Z *z) { z->open = false; z->outstanding = false; z->ev = nullptr; z->f = nullptr; z->due = 0; z->q = nullptr; z->l = nullptr; if (!z->service.empty()) { G->by_service.erase(z->service); z->service = ""; } }
void z_close(Z *z)
{
  note("close %s %d", kname[z->k], z->id); if (G->depth) probe("closed_in_callback");
  switch (z->k)
  {
  case DESC: descriptor_close((descriptor *) z->m); break;
  case EVENT: event_close((event *) z->m); break;
  case TIMER: timer_clear((timer *) z->m); break;
  case STREAM: case TLS: stream_close((stream *) z->m); break;
  case NOTIFY: notify_clear((notify *) z->m); break;
  case ASYNC: async_cancel((async *) z->m); CHECK(!z->running, "called-after-close", "a cancelled call is still running"); break;
  case RESOLVER: resolver_cancel((resolver *) z->m); break;
  case SERVER: server_shutdown((server *) z->m); break;
  default: break;
  }
  forget(z);
}
void z_destroy(Z *z)
{
  note("destruct %s %d%s", kname[z->k], z->id, z->open ? " (open)" : ""); if (G->depth) probe("destructed_in_callback");
  switch (z->k)
  {
  case DESC: descriptor_destruct((descriptor *) z->m); break;
  case EVENT: event_destruct((event *) z->m); break;
  case TIMER: timer_destruct((timer *) z->m); break;
  case STREAM: case TLS: stream_destruct((stream *) z->m); break;
  case NOTIFY: notify_destruct((notify *) z->m); break;
  case ASYNC: async_destruct((async *) z->m); CHECK(!z->running, "called-after-close", "a destructed call is still running"); break;
  case RESOLVER: resolver_destruct((resolver *) z->m); break;
  case SERVER: server_destruct((server *) z->m); break;
  default: break;
  }
  forget(z); G->by_id.erase(z->id); G->v.erase(std::find(G->v.begin(), G->v.end(), z));
  memset(z->m, 0xEE, SLOT);
  if (G->reuse) G->slots.push_back(z->m); else free(z->m);
  delete z;
}
Z *z_new(bool open)
{
  Z *z = new Z; z->id = G->next++; static const K kinds[] = {DESC, EVENT, TIMER, STREAM, NOTIFY, ASYNC, TLS, RESOLVER, SERVER, DESC, EVENT, TIMER, STREAM}; z->k = kinds[choose(PLAN, 13)];
  if (G->reuse && !G->slots.empty()) { z->m = G->slots.back(); G->slots.pop_back(); probe("memory_reused"); } else z->m = malloc(SLOT);
  void *st = (void *) (uintptr_t) z->id; memset(z->m, 0xA5, SLOT); G->by_id[z->id] = z; G->v.push_back(z);
  switch (z->k)
  {
  case DESC: descriptor_construct((descriptor *) z->m, desc_cb, st); break;
  case EVENT: event_construct((event *) z->m, event_cb, st); break;
  case TIMER: timer_construct((timer *) z->m, timer_cb, st); break;
  case STREAM: case TLS: stream_construct((stream *) z->m, stream_cb, st); break;
  case NOTIFY: notify_construct((notify *) z->m, notify_cb, st); break;
  case ASYNC: async_construct((async *) z->m, async_cb, st); break;
  case RESOLVER: resolver_construct((resolver *) z->m, resolver_cb, st); break;
  case SERVER: server_construct((server *) z->m, srv_cb, st); break;
  default: break;
  }
  if (open) z_open(z);
  return z;
}
// a stream takes output whether or not it is open; what is not sent is released with it
void z_stray(Z *z)
{
  stream *s = (stream *) z->m; probe("written_while_closed"); note("write to closed stream %d", z->id);
  std::string d(1 + size_pick(PLAN, choose(PLAN, 4) == 3 ? 30000 : 300), 'z');
  if (choose(PLAN, 2)) stream_write(s, data_construct(d.data(), d.size())); else memset(stream_allocate(s, d.size()), 'z', d.size());
}
void z_trigger(Z *z)
{
  if (!z->open) { if ((z->k == STREAM || z->k == TLS)) z_stray(z); return; }
  note("trigger %s %d", kname[z->k], z->id);
  switch (z->k)
  {
  case DESC: { Kernel k; z->ev->count++; z->ev->wake(EPOLLIN); break; }
  case EVENT: z->raised++; event_signal((event *) z->m); break;
  case TIMER: z_open(z); break;
  case STREAM: case TLS:
    if (z->w->closed) break;
    switch (choose(PLAN, 6))
    {
    case 0: case 1: case 2: { if (z->peer_left) break; Kernel k; std::string d(1 + size_pick(PLAN, choose(PLAN, 4) == 3 ? 100000 : 300), 'x'); z->sent += d.size(); z->w->send(d); break; }
    case 3: { std::string d(1 + size_pick(PLAN, choose(PLAN, 4) == 3 ? 300000 : 300), 'y'); stream_write((stream *) z->m, data_construct(d.data(), d.size())); if (choose(PLAN, 2)) stream_flush((stream *) z->m); break; }
    case 4: stream_notify((stream *) z->m); break;
    case 5: if (choose(PLAN, 2)) { Kernel k; z->peer_left = true; if (choose(FAULT, 2)) { z->w->reset_now(); fault("peer_reset"); } else { z->w->close(); fault("peer_close"); } } break;
    }
    break;
  case NOTIFY: { Kernel k; u32 n = choose(PLAN, 4) == 3 ? 200 : 1 + choose(PLAN, 3); while (n--) fs_event(G->paths[choose(PLAN, G->paths.size())], IN_MODIFY << choose(PLAN, 2), choose(PLAN, 2) ? "n" + std::to_string(n) : ""); break; }
  case SERVER:
    if (z->clients < 4 && z->l)
    {
      Sock *p = peer_connect(z->l, random_net()); if (!p) break;
      Wire *w = new Wire; G->wires.push_back(w); z->clients++; w->attach(p, z->tls, false, 0); u32 n = choose(PLAN, 4); std::string d; while (n--) d += "GET / HTTP/1.1\r\n\r\n"; if (choose(PLAN, 6) == 5) d += "bad\x01\r\n\r\n"; else if (choose(PLAN, 6) == 5) d += "GET / HT"; if (!d.empty()) w->send(d);
      u32 q = choose(FAULT, 6); if (q == 5) { after(between(FAULT, 0, 1000000), [w] { w->reset_now(); }); fault("client_reset"); } else if (q == 4) { after(between(FAULT, 0, 1000000), [w] { w->close(); }); fault("client_close"); }
    }
    break;
  default: break;
  }
}
void z_op(Z *self)
{
  if (G->ops <= 0) return;
  G->ops--;
  Z *z = self && choose(PLAN, 3) == 2 ? self : G->v.empty() ? nullptr : G->v[choose(PLAN, G->v.size())];
  switch (choose(PLAN, 9))
  {
  case 0: case 1: if (z) z_destroy(z); break;
  case 2: if (z) z_close(z); break;
  case 3: if (z && (z->k != SERVER)) { z_close(z); z_open(z); } break;
  case 4: if (z) { z_destroy(z); z = z_new(true); if (choose(PLAN, 2)) z_trigger(z); } break;
  case 5: if (G->v.size() < 70) { z = z_new(true); if (choose(PLAN, 2)) z_trigger(z); } break;
  case 6: if (z) { if (!z->open && z->k != SERVER) z_open(z); else z_trigger(z); } break;
  case 7: if (z) z_trigger(z); break;
  case 8: if (!G->held.empty()) { size_t i = choose(PLAN, G->held.size()); server_request *r = G->held[i].r; G->held.erase(G->held.begin() + i); switch (choose(PLAN, 3)) { case 0: server_ok(r, data_null(), data_construct("y", 1)); break; case 1: server_close(r); server_release(r); break; case 2: server_not_found(r); break; } } break;
  }
}
void z_intact() { for (Z *z : G->v) if (z->open && z->f) CHECK(fd_get(z->fd) == z->f, "foreign-descriptor", "the descriptor of an open %s was closed by another source", kname[z->k]); }
void zoo(u32 self)
{
  ZW w; G = &w; w.self = self; random_env(); w.loop = cur; w.ops = choose(CFG, 100); w.reuse = choose(CFG, 2); preempt_scale = choose(CFG, 6); w.limit = pick(CFG, {16384, 30, 300});
  for (int i = 0; i < 3; i++) { w.paths.push_back("/sim/p" + std::to_string(i)); vfs[w.paths[i]] = std::make_shared<INode>(); }
  resolve_hook = [](const char *, const char *s, const addrinfo *, addrinfo **res) -> int {
    auto i = G->by_service.find(s); CHECK(i != G->by_service.end(), "called-after-close", "a lookup that was cancelled is made"); Z *z = i->second; int err = z->err;
    if (z->delay) sleep_ns(z->delay * 1000, true); else yield_point();
    i = G->by_service.find(s); CHECK(i != G->by_service.end(), "called-after-close", "a lookup goes on after it was cancelled"); z->worked = true;
    if (err) { *res = nullptr; return err; }
    *res = make_addrinfo(AF_INET, SOCK_STREAM, 0, 80, "127.0.0.1", 2); return 0; };
  size_t start_fd = fd_count(), heap = lib_blocks(); u64 ssl = ssl_live, ai = addrinfo_live;
  u32 lives = self == 28 ? 1 + choose(CFG, 3) : 1;
  sample("lives=%u ops=%d reuse=%d preempt=%d", lives, w.ops, w.reuse, preempt_scale);
  for (u32 life = 0; life < lives; life++)
  {
    if (life) w.ops = choose(CFG, 60);
    w.ending = false;
    reactor_construct(); size_t base = fd_count();
    u32 n = pick(CFG, {4, 2, 10, 34, 60}), rounds = 1 + choose(CFG, 8);
    while (n--) z_new(choose(PLAN, 5) != 4);
    for (u32 r = 0; r < rounds; r++)
    {
      u32 dens = 1 + choose(PLAN, 4); std::vector<int> ids; for (Z *z : w.v) ids.push_back(z->id);
      for (int id : ids) if (w.by_id.count(id) && choose(PLAN, dens) == 0) z_trigger(w.by_id[id]);
      u32 k = choose(PLAN, 3); while (k--) z_op(nullptr);
      k = choose(PLAN, 4); while (k--) { step(); z_intact(); }
      if (choose(PLAN, 4) == 3) settle(between(PLAN, 1000, 20000000));
    }
    w.ops = 0;
    if (self == 1 || choose(PLAN, 2))
    {
      w.ending = true;
      while (!w.held.empty()) { server_request *r = w.held.back().r; w.held.pop_back(); server_ok(r, data_null(), data_null()); }
      quiesce(); z_intact();
      for (Z *z : w.v) if (z->open) switch (z->k)
      {
      case DESC: CHECK(!z->ev->count, "suppressed", "descriptor source %d is ready but was not called when all is quiet", z->id); break;
      case EVENT: CHECK(z->got == z->raised, "suppressed", "event source %d was raised %llu times, %llu are delivered when all is quiet", z->id, (unsigned long long) z->raised, (unsigned long long) z->got); break;
      case TIMER: CHECK(z->interval || !z->due || z->due > mono, "suppressed", "timer source %d is due but was not called when all is quiet", z->id); break;
      case STREAM: case TLS: if (z->peer_left) CHECK(z->told, "suppressed", "stream source %d was not told that its peer left", z->id); else CHECK(z->in == z->sent, "suppressed", "stream source %d was offered %llu of %llu bytes when all is quiet", z->id, (unsigned long long) z->in, (unsigned long long) z->sent); break;
      case NOTIFY: if (z->q) for (auto &q : *z->q) CHECK(q.wd < 0, "suppressed", "notify source %d was not told of a change", z->id); break;
      case ASYNC: case RESOLVER: CHECK(!z->outstanding, "suppressed", "%s source %d did not complete", kname[z->k], z->id); break;
      default: break;
      }
    }
    while (!w.v.empty()) { size_t i = choose(PLAN, w.v.size()); z_destroy(w.v[i]); if (choose(PLAN, 8) == 7) { step(); z_intact(); } }
    while (!w.held.empty()) { server_request *r = w.held.back().r; w.held.pop_back(); if (choose(PLAN, 2)) server_ok(r, data_null(), data_null()); else { server_close(r); server_release(r); } }
    progress(); reactor_loop(); probe("loop_ended");
    CHECK(fd_count() == base, "fd-leak", "everything is destructed, descriptors left: %s", fd_list().c_str());
    if (!leaks()) { reactor_destruct(); break; }
    CHECK(lib_blocks() == heap, "heap-leak", "everything is destructed, heap blocks left: %s", lib_blocks_list().c_str());
    for (Wire *x : w.wires) x->destroy();
    CHECK(ssl_live == ssl, "ssl-leak", "everything is destructed, %lld TLS sessions are left", (long long) (ssl_live - ssl));
    CHECK(addrinfo_live == ai, "addrinfo-leak", "everything is destructed, %lld address lists are left", (long long) (addrinfo_live - ai));
    CHECK(tasks_alive() == 1 && threads_unjoined() == 0, "thread-leak", "everything is destructed, threads are left");
    reactor_destruct();
    CHECK(fd_count() == start_fd, "fd-leak", "the reactor is destructed, descriptors left: %s", fd_list().c_str());
    w.by_service.clear();
  }
  for (Wire *x : w.wires) x->destroy();
  for (void *m : w.slots) free(m);
  resolve_hook = nullptr;
}
void run_zoo1() { zoo(1); }
void run_zoo28() { zoo(28); }
Reg r01b("C01", "mixed_components", run_zoo1), r28("C28", "ledger", run_zoo28);
}
