// C02 readiness, C03 loop life
#include "scen.h"
#include "internal.h"
using namespace sim;

// ------------------------------------------------------------------ C02
namespace {
const u32 HUPS = EPOLLHUP | EPOLLRDHUP | EPOLLERR;
struct D {
  descriptor d; int id; int fd = -1; File *f = nullptr; bool open = false; int mask = 0;
  int kind; Sock *peer = nullptr; Sock *sock = nullptr; PipeR *pr = nullptr; PipeW *pw = nullptr; EventFd *ev = nullptr;
  bool peer_gone = false;
  // observed
  u64 read_seen = 0; u32 hup_seen = 0; bool want_read = false, want_write = false;
  // this iteration
  u32 truth = 0; int mask_begin = 0; bool in_iter = false; int stage = -1; u64 level_writes = 0; u64 cbs = 0;
  u64 arrived() { return kind == 0 ? sock->peer_dir->D : kind == 1 ? pr_total : kind == 3 ? ev_total : 0; }
  u64 pr_total = 0, ev_total = 0;
};
struct RW { std::vector<D *> v; int ops; int read_style; bool in_batch = false; } *RWp;
void d_cb(reactor_event *e);
D *d_open(D *x)
{
  static const u32 masks[] = {DESCRIPTOR_READ, DESCRIPTOR_READ | DESCRIPTOR_WRITE, DESCRIPTOR_WRITE, 0, DESCRIPTOR_READ | DESCRIPTOR_LEVEL, DESCRIPTOR_READ | DESCRIPTOR_WRITE | DESCRIPTOR_LEVEL};
  bool fresh = !x; if (fresh) { x = new D; x->id = RWp->v.size(); descriptor_construct(&x->d, d_cb, x); RWp->v.push_back(x); }
  x->kind = choose(PLAN, 4); x->peer = x->sock = nullptr; x->pr = nullptr; x->pw = nullptr; x->ev = nullptr; x->peer_gone = false;
  x->read_seen = 0; x->hup_seen = 0; x->pr_total = x->ev_total = 0; x->level_writes = 0; x->in_iter = false; x->stage = -1;
  if (x->kind == 0) { x->peer = new_peer_pair(random_net(true), &x->fd); x->sock = (Sock *) fd_get(x->fd); x->f = x->sock; }
  else if (x->kind == 1) { pipe_pair(&x->pr, &x->pw, 2 + choose(PLAN, 15)); x->pr->nonblock = x->pw->nonblock = true; x->fd = fd_install(x->pr); x->f = x->pr; }
  else if (x->kind == 2) { pipe_pair(&x->pr, &x->pw, 1 + choose(PLAN, 3)); x->pr->nonblock = x->pw->nonblock = true; x->fd = fd_install(x->pw); x->f = x->pw; }
  else { x->ev = new EventFd(0, choose(PLAN, 2)); x->ev->nonblock = true; x->fd = fd_install(x->ev); x->f = x->ev; }
  x->mask = masks[choose(PLAN, 6)];
  if (x->kind == 2) x->mask = (x->mask & ~DESCRIPTOR_READ);
  x->open = true; x->want_read = true; x->want_write = true;
  note("open descriptor %d fd %d kind %d mask %d", x->id, x->fd, x->kind, x->mask);
  descriptor_open(&x->d, x->fd, (enum descriptor_mask) x->mask);
  return x;
}
void d_close(D *x)
{
  note("close descriptor %d", x->id);
  descriptor_close(&x->d); x->open = false; x->in_iter = false;
  CHECK(!descriptor_is_open(&x->d), "desc-open", "a closed descriptor is open"); CHECK(!fd_get(x->fd) || fd_get(x->fd) != x->f, "desc-fd", "closing a descriptor leaves its file descriptor open");
}
void d_mask(D *x, int m)
{
  if (m == x->mask) { descriptor_mask(&x->d, (enum descriptor_mask) m); return; }
  note("mask descriptor %d %d -> %d", x->id, x->mask, m); probe("mask_changed");
  x->mask = m; x->want_read = true; x->want_write = true; x->hup_seen = 0;
  descriptor_mask(&x->d, (enum descriptor_mask) m);
}
// what the other side does
void far_op(D *x)
{
  static char buf[70000]; Kernel k;
  if (x->kind == 0)
  {
    if (x->peer_gone) return;
    switch (choose(NET, 8))
    {
    case 0: case 1: case 2: { size_t n = size_pick(NET, 70000); peer_send(x->peer, buf, n); break; }
    case 3: peer_send(x->peer, buf, 1); break;
    case 4: { size_t n = 1 + size_pick(NET, 70000); while (n) { size_t g = peer_recv(x->peer, buf, std::min(n, sizeof buf)); if (!g) break; n -= std::min(n, g); } break; }
    case 5: peer_shutdown(x->peer); probe("half_close"); break;
    case 6: if (choose(NET, 2)) { peer_close(x->peer); x->peer_gone = true; } break;
    case 7: if (choose(FAULT, 3) == 2) { peer_reset(x->peer); x->peer_gone = true; } break;
    }
  }
  else if (x->kind == 1) { if (x->peer_gone) return; if (choose(NET, 8) == 7) { x->pw->release(); x->peer_gone = true; } else { ssize_t r = x->pw->write(buf, 1 + size_pick(NET, 20000)); if (r > 0) x->pr_total += r; } }
  else if (x->kind == 2) { if (x->peer_gone) return; if (choose(NET, 8) == 7) { x->pr->release(); x->peer_gone = true; } else { x->pr->read(buf, 1 + size_pick(NET, 20000)); } }
  else { u64 v = 1 + choose(NET, 3); if (x->ev->write(&v, 8) > 0) x->ev_total += v; }
}
void plan_far() { D *x = RWp->v[choose(PLAN, RWp->v.size())]; if (!x->open) return; u32 k = x->id; File *f = x->f; at(mono + between(NET, 0, 3000), [k, f] { D *y = RWp->v[k]; if (y->open && y->f == f) far_op(y); }); }
void lib_write(D *x)
{
  static char buf[70000]; if (x->kind == 1 || x->kind == 3) return;
  size_t n = choose(PLAN, 2) ? 65536 : size_pick(PLAN, 65536); if (!n) return;
  u32 k = 1 + choose(PLAN, 4);
  while (k--) { ssize_t r = sim_write(x->fd, buf, n); if (r < (ssize_t) n) { if (r >= 0 || errno == EAGAIN) { x->want_write = true; probe("filled"); } break; } }
}
void lib_read(D *x, int style)
{
  static char buf[70000];
  size_t n = x->kind == 3 ? 8 : style == 0 ? sizeof buf : 1 + size_pick(PLAN, 5000);
  if (x->kind == 2) return;
  while (1) { ssize_t r = sim_read(x->fd, buf, n); if (r <= 0 || style) break; }
  u64 used = x->kind == 0 ? x->sock->peer_dir->R : x->kind == 1 ? x->pr_total - x->pr->b->size() : x->ev->count ? 0 : x->ev_total;
  x->read_seen = std::max(x->read_seen, used);                   // what the user took itself needs no callback
}
void cb_op(D *x)
{
  if (RWp->ops <= 0) return;
  RWp->ops--;
  D *y = choose(PLAN, 2) ? x : RWp->v[choose(PLAN, RWp->v.size())];
  switch (choose(PLAN, 6))
  {
  case 0: break;
  case 1: if (y->open && y->kind != 2) d_mask(y, (y->mask & DESCRIPTOR_LEVEL) | choose(PLAN, 4)); else if (y->open) d_mask(y, choose(PLAN, 2) ? DESCRIPTOR_WRITE : 0); break;
  case 2: if (y->open) { lib_write(y); } break;
  case 3: plan_far(); break;
  case 4: if (y->open) d_close(y); break;
  case 5: if (!y->open) d_open(y); break;
  }
}
void d_cb(reactor_event *e)
{
  D *x = (D *) e->state; int type = e->type;
  note("descriptor %d callback %s", x->id, type == DESCRIPTOR_READ ? "READ" : type == DESCRIPTOR_WRITE ? "WRITE" : "CLOSE");
  CHECK(x->open, "desc-dead", "descriptor %d is called back although it is closed", x->id);
  CHECK(x->in_iter, "desc-early", "descriptor %d is called back in the iteration in which it was opened", x->id);
  int st = type == DESCRIPTOR_READ ? 0 : type == DESCRIPTOR_WRITE ? 1 : 2;
  CHECK(type == DESCRIPTOR_READ || type == DESCRIPTOR_WRITE || type == DESCRIPTOR_CLOSE, "desc-type", "unknown callback type %d", type);
  CHECK(st > x->stage, "desc-order", "descriptor %d: %s is reported after %s in one notification", x->id, st == 0 ? "read" : st == 1 ? "write" : "close", x->stage == 0 ? "read" : x->stage == 1 ? "write" : "close");
  x->stage = st; x->cbs++;
  if (st == 0)
  {
    CHECK(x->mask_begin & DESCRIPTOR_READ, "desc-unasked", "descriptor %d reports read readiness its mask did not ask for", x->id);
    CHECK(x->truth & EPOLLIN, "desc-invented", "descriptor %d reports read readiness but was not readable", x->id);
    x->read_seen = x->arrived(); x->want_read = false; 
    bool level = x->mask & DESCRIPTOR_LEVEL;
    if (level) lib_read(x, choose(PLAN, 2)); else if (RWp->read_style == 0) lib_read(x, 0); else { u32 s = choose(PLAN, 3); if (s < 2) lib_read(x, s); }
    if (x->truth & HUPS) probe("data_with_hangup");
  }
  else if (st == 1)
  {
    CHECK(x->mask_begin & DESCRIPTOR_WRITE, "desc-unasked", "descriptor %d reports write readiness its mask did not ask for", x->id);
    CHECK(x->truth & EPOLLOUT, "desc-invented", "descriptor %d reports write readiness but was not writable", x->id);
    x->want_write = false;
    if (x->mask & DESCRIPTOR_LEVEL) { if (choose(PLAN, 2) || ++x->level_writes > 4) d_mask(x, x->mask & ~DESCRIPTOR_WRITE); else lib_write(x); }
    else if (choose(PLAN, 2)) lib_write(x);
  }
  else
  {
    CHECK(x->truth & HUPS, "desc-invented", "descriptor %d reports a close but its peer is connected", x->id);
    x->hup_seen |= x->f->poll() & HUPS;
    if ((x->mask & DESCRIPTOR_LEVEL) || choose(PLAN, 2)) { d_close(x); if (choose(PLAN, 2) && RWp->ops > 0) { RWp->ops--; d_open(x); } return; }
    if (x->mask & DESCRIPTOR_LEVEL) return;
  }
  if (choose(PLAN, 3) == 2) cb_op(x);
}
void ready_check(const char *when)
{
  for (D *x : RWp->v)
    if (x->open)
    {
      u32 p = x->f->poll();
      if (x->mask & DESCRIPTOR_READ)
      {
        CHECK(x->read_seen >= x->arrived(), "desc-read-missed", "descriptor %d (fd %d kind %d mask %d): %llu units arrived, the last read callback was made when %llu had (%s)", x->id, x->fd, x->kind, x->mask, (unsigned long long) x->arrived(), (unsigned long long) x->read_seen, when);
        CHECK(!(x->want_read && (p & EPOLLIN)), "desc-read-missed", "descriptor %d (fd %d kind %d mask %d) is readable since its mask was set but no read callback came (%s)", x->id, x->fd, x->kind, x->mask, when);
        CHECK(!((x->mask & DESCRIPTOR_LEVEL) && (p & EPOLLIN)), "desc-level", "level triggered descriptor %d is still readable but not reported again (%s)", x->id, when);
      }
      if (x->mask & DESCRIPTOR_WRITE) CHECK(!(x->want_write && (p & EPOLLOUT)), "desc-write-missed", "descriptor %d (fd %d kind %d mask %d) is writable but no write callback came (%s)", x->id, x->fd, x->kind, x->mask, when);
      CHECK(!(p & HUPS & ~x->hup_seen), "desc-close-missed", "descriptor %d (fd %d kind %d mask %d) has hung up (%x, reported %x) but no close callback came (%s)", x->id, x->fd, x->kind, x->mask, p & HUPS, x->hup_seen, when);
    }
}
void run_ready()
{
  RW w; RWp = &w; random_env();
  reactor_construct(); size_t base = fd_count();
  u32 n = choose(CFG, 3) == 0 ? 1 + choose(CFG, 3) : choose(CFG, 2) ? 2 + choose(CFG, 20) : choose(CFG, 40) == 39 ? 250 + choose(CFG, 250) : 33 + choose(CFG, 80);
  w.ops = choose(CFG, 60); w.read_style = choose(CFG, 2);
  sample("descriptors=%u ops=%d eintr=%u", n, w.ops, knobs.eintr);
  on_epoll_return = [](int r, const epoll_event *) {
    int ready = 0;
    for (D *x : RWp->v) { x->stage = -1; x->in_iter = r > 0 && x->open; x->mask_begin = x->mask; x->truth = x->open ? x->f->poll() : 0; ready += x->open && (x->truth & (EPOLLIN | HUPS)); }
    if (ready > 32) probe("more_than_32_ready");
  };
  for (u32 i = 0; i < n; i++) d_open(nullptr);
  u32 rounds = 1 + choose(CFG, 8);
  for (u32 r = 0; r < rounds; r++)
  {
    u32 k = choose(PLAN, 3) == 2 ? n * 2 : 1 + choose(PLAN, 10);
    while (k--) { if (choose(PLAN, 3) == 0) { D *x = w.v[choose(PLAN, w.v.size())]; if (x->open) far_op(x); } else plan_far(); }
    if (choose(PLAN, 2)) stall(4000);                            // let everything become ready before the loop looks
    u32 s = choose(PLAN, 6); while (s--) step();
    for (u32 q = choose(PLAN, 4); q--;) cb_op(w.v[choose(PLAN, w.v.size())]);
    quiesce(); ready_check("when all is quiet"); nontrivial();
  }
  for (D *x : w.v) { if (x->open && choose(PLAN, 2)) d_close(x); descriptor_destruct(&x->d); x->open = false; }
  CHECK(fd_count() == base, "desc-fd-leak", "descriptors left: %s", fd_list().c_str());
  step();
  reactor_destruct();
  for (D *x : w.v) delete x;
}
Reg r02("C02", "ready", run_ready);
}

// ------------------------------------------------------------------ C03
namespace {
struct Src { int kind; descriptor d; timer t; event e; int fd = -1; u64 fires = 0, limit; bool open = false; EventFd *ev = nullptr; Sock *peer = nullptr; bool mute = false; };
struct LW { std::vector<Src *> v; std::vector<Src *> crowd; bool stop = false, running = false, in_cb = false; u64 enters_after_stop = 0; int sources = 0; int budget; int stop_in = -1; bool sigs; int new_left; u64 idle = 0; u64 stop_blocks = 0; } *LP;
void src_cb(reactor_event *e);
void crowd_cut();
void src_open(Src *s)
{
  s->fires = 0; s->limit = 1 + choose(PLAN, 4); s->kind = choose(PLAN, 4);
  switch (s->kind)
  {
  case 0: timer_set(&s->t, choose(PLAN, 100000), 100000 + choose(PLAN, 10000000)); break;
  case 1: event_open(&s->e); break;
  case 2: s->ev = new EventFd(0, false); s->ev->nonblock = true; s->fd = fd_install(s->ev); descriptor_open(&s->d, s->fd, DESCRIPTOR_READ); break;
  case 3: { NetCfg c; s->peer = new_peer_pair(c, &s->fd); descriptor_open(&s->d, s->fd, DESCRIPTOR_READ); break; }
  }
  s->open = true; LP->sources++;
  note("open source kind %d (%d sources)", s->kind, LP->sources);
}
void src_close(Src *s)
{
  if (!s->open) return;
  note("close source kind %d (%d sources left)", s->kind, LP->sources - 1);
  switch (s->kind) { case 0: timer_clear(&s->t); break; case 1: event_close(&s->e); break; default: descriptor_close(&s->d); break; }
  if (choose(PLAN, 4) == 3) { switch (s->kind) { case 0: timer_clear(&s->t); break; case 1: event_close(&s->e); break; default: descriptor_close(&s->d); break; } }   // closing twice is harmless
  s->open = false; LP->sources--;
}
void stop_requested(const char *how) { note("stop requested (%s)", how); if (!LP->stop) { LP->stop = true; LP->enters_after_stop = 0; LP->stop_blocks = epoll_blocks; } }
void trigger(Src *s)
{
  if (!s->open) return;
  if (s->kind == 1) event_signal(&s->e);
  if (s->kind == 2) { u64 v = 1; s->ev->write(&v, 8); }
  if (s->kind == 3) { Kernel k; peer_send(s->peer, "x", 1); }
}
void src_cb(reactor_event *e)
{
  Src *s = (Src *) e->state; static char b[100];
  CHECK(s->open, "loop-dead", "a closed source is called back");
  s->fires++;
  if (s->kind >= 2) { while (sim_read(s->fd, b, sizeof b) > 0); }
  if (s->kind == 3 && choose(PLAN, 3) == 2) { Kernel k; peer_close(s->peer); }
  if (s->kind == 3) { (void) sim_write(s->fd, "y", 1); if (choose(PLAN, 2)) (void) sim_write(s->fd, "y", 1); }     // may meet a vanished peer
  if (LP->stop_in > 0 && --LP->stop_in == 0) { stop_requested("reactor_abort"); reactor_abort(); }
  if (s->fires >= s->limit) src_close(s);
  if (LP->new_left > 0 && choose(PLAN, 3) == 2) { LP->new_left--; for (Src *x : LP->v) if (!x->open) { src_open(x); break; } }
  if (choose(PLAN, 2)) crowd_cut();
  if (choose(PLAN, 3) == 2) src_close(LP->v[choose(PLAN, LP->v.size())]);
  if (choose(PLAN, 2)) trigger(LP->v[choose(PLAN, LP->v.size())]);
}
void crowd_cut() { u32 n = LP->crowd.size(); if (!n) return; u32 k = pick(PLAN, {n, n, 1, n / 2, n - 1, n % 256, n % 65536}); note("%u of a crowd of %u sources are closed", k, n); while (k--) { Src *s = LP->crowd.back(); LP->crowd.pop_back(); descriptor_close(&s->d); descriptor_destruct(&s->d); delete s; LP->sources--; } }
void one_signal() { int s = choose(FAULT, 2) ? SIGINT : SIGTERM; fault(s == SIGINT ? "sigint" : "sigterm"); stop_requested("signal"); raise_signal(s); }
void run_loop()
{
  LW w; LP = &w; random_env(); u32 lives = 1 + choose(CFG, 4), n = 1 + choose(CFG, 6); w.new_left = choose(CFG, 10); w.sigs = choose(CFG, 2);
  sample("lives=%u sources=%u signals=%d eintr=%u", lives, n, w.sigs, knobs.eintr);
  for (u32 i = 0; i < n; i++) { Src *s = new Src; descriptor_construct(&s->d, src_cb, s); timer_construct(&s->t, src_cb, s); event_construct(&s->e, src_cb, s); w.v.push_back(s); }
  on_epoll_enter = [] {
    if (!LP->running) return;
    if (LP->stop) LP->enters_after_stop++;
    CHECK(LP->sources > 0, "loop-runs-on", "the loop waits although no source is registered");
    CHECK(LP->enters_after_stop <= 1, "loop-no-stop", "the loop goes on waiting although a stop was requested");
    if (LP->sigs && choose(FAULT, 12) == 11) { probe("signal_before_wait"); one_signal(); deliver_signals(); }
  };
  on_idle = [] {
    if (!LP->running) return;
    CHECK(!LP->stop, "loop-no-stop", "the loop is blocked although a stop was requested");
    LP->idle++;
    std::vector<Src *> open; for (Src *s : LP->v) if (s->open) open.push_back(s);
    if (open.empty() && !LP->crowd.empty()) { at(mono + 1, [] { one_signal(); }); return; }
    if (open.empty()) violation("loop-runs-on", "the loop waits although no source is registered");
    Src *s = open[choose(PLAN, open.size())];
    if (s->kind == 1 || s->kind == 0 || (s->kind == 3 && s->peer->orphan) || LP->idle > 20) { at(mono + 1, [] { one_signal(); }); return; }
    at(mono + 1, [s] { trigger(s); });
  };
  for (u32 life = 0; life < lives; life++)
  {
    w.stop = false; w.sources = 0; w.stop_in = choose(PLAN, 3) == 2 ? 1 + choose(PLAN, 8) : -1;
    sigpipe_ignored = false;
    reactor_construct();
    CHECK(sigpipe_ignored, "loop-sigpipe", "writing to a vanished peer would kill the process (SIGPIPE is not ignored)");
    u32 open = choose(PLAN, n + 1);
    for (u32 i = 0; i < open; i++) src_open(w.v[i]);
    if (choose(PLAN, 30) == 29)         // so many that a narrow count of them would wrap
    {
      u32 k = choose(PLAN, 40) == 39 ? 65536 + choose(PLAN, 3) - open : pick(PLAN, {256 - open, 256, 300, 513}); fd_room = 70000;
      while (k--) { Src *s = new Src; s->kind = 2; s->limit = 1; descriptor_construct(&s->d, src_cb, s); EventFd *f = new EventFd(0, false); f->nonblock = true; descriptor_open(&s->d, s->fd = fd_install(f), DESCRIPTOR_READ); w.crowd.push_back(s); w.sources++; }
      note("a crowd of sources: %d in all", w.sources); probe("crowd_of_sources");
    }
    for (u32 i = 0; i < open; i++) if (choose(PLAN, 2)) trigger(w.v[i]);
    if (choose(PLAN, 8) == 7) { stop_requested("before the loop"); reactor_abort(); }
    if (w.sigs && choose(FAULT, 2)) at(mono + between(FAULT, 0, 30000000), [life] { if (LP->running) one_signal(); });
        w.running = true; progress();
    reactor_loop();
    w.running = false;
    CHECK(w.stop || w.sources == 0, "loop-ends-early", "the loop returns although %d sources are registered and no stop was requested", w.sources);
    if (w.stop) { probe("stopped"); CHECK(epoll_blocks == w.stop_blocks, "loop-no-stop", "the loop blocked again after a stop was requested"); } else probe("ran_out_of_sources");
    nontrivial();
    for (Src *s : w.v) src_close(s);
    for (Src *s : w.crowd) { descriptor_close(&s->d); descriptor_destruct(&s->d); delete s; } w.crowd.clear();
    deliver_signals();
    reactor_destruct();
    CHECK(fd_count() == 0, "loop-fd-leak", "descriptors left: %s", fd_list().c_str());
    if (choose(PLAN, 2)) stall(choose(PLAN, 50000000));
  }
  for (Src *s : w.v) { descriptor_destruct(&s->d); timer_destruct(&s->t); event_destruct(&s->e); delete s; }
}
Reg r03("C03", "loop", run_loop);
}
