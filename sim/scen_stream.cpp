// C10..C15: streams over simulated sockets and pipes, plain and encrypted
#include "scen.h"
#include "internal.h"
using namespace sim;

namespace {
enum { P10 = 1, P11 = 2, P12 = 4, P13 = 8, P14 = 16, P15 = 32 };
const u32 HUPS = EPOLLHUP | EPOLLRDHUP | EPOLLERR;
struct HR : PipeR { std::function<void()> on; bool pend = false; void wake(u32) override { if (on && !pend) { pend = true; at(mono, [this] { pend = false; if (on) on(); }); } } };
struct HW : PipeW { std::function<void()> on; bool pend = false; void wake(u32) override { if (on && !pend) { pend = true; at(mono, [this] { pend = false; if (on) on(); }); } } };
struct LS;
struct Conn { bool updated = false;
  int id; int kind = 0; bool tls = false, lib_server = false; int mask = 0; Wire w; File *f = nullptr; Sock *lib = nullptr;
  HR *hr = nullptr; HW *hw = nullptr; PipeBuf *pb = nullptr; std::string pin; ByteQ pout; u64 pin_total = 0, pout_done = 0; size_t plimit = ~0ull; bool ppaused = false;
  std::string out_ref, in_ref; u64 in_off = 0; u64 flushed = 0, seen = 0, consumed = 0, checked = 0;
  bool told = false, detached = false, pend_begin = false, failed = false; LS *owner = nullptr;
  std::deque<std::pair<u64, u64>> handed;       // (wire bytes, application bytes that must be in them)
  const std::string &got() { return kind ? pin : w.in; }
  bool gone() { return kind == 0 ? w.s->shut_wr || w.s->orphan || w.s->dead || lib->dead : kind == 1 ? !pb->readers : !pb->writers; }
  bool peer_alive() { return kind == 0 ? !(w.s->orphan || w.s->dead || lib->dead || w.closed || w.garbage) : kind == 1 ? pb->readers > 0 : pb->writers > 0; }
  u64 accepted() { return kind == 0 ? lib->out.W : pin.size() + (pb ? pb->size() : 0); }
  bool reading() { return kind == 0 ? !w.paused : !ppaused; }
};
struct LS { int id; stream *s = nullptr; Conn *c = nullptr; bool alive = true, canary = false; bool req = false; std::string pre; u64 woff = 0; u64 read_cbs = 0; };
struct Prof { u32 self; int tls; /* percent */ u32 kinds; /* 1 socket 2 pipe out 4 pipe in */ u32 max_size; u32 write, alloc, flush, notify, consume, close, reopen, destruct, psend, pclose, pfail, prewrite; bool tight; };
struct SW { Prof p; std::vector<LS *> v; std::vector<Conn *> conns; int ops; u32 psize; bool failing, flood = false; u64 timer_fires = 0; } *W;
bool on(u32 m) { return W->p.self & m; }
#define SC(m, cond, ...) do { if (on(m)) CHECK(cond, __VA_ARGS__); } while (0)
void s_cb(reactor_event *e);

void out_check(Conn *c)
{
  const std::string &g = c->got();
  if (on(P10 | P13 | P14 | P15) && !c->w.garbage)
  {
    CHECK(g.size() <= c->out_ref.size(), "stream-out-extra", "connection %d: the peer received %zu bytes, only %zu were written", c->id, g.size(), c->out_ref.size());
    if (g.size() > c->checked && memcmp(g.data() + c->checked, c->out_ref.data() + c->checked, g.size() - c->checked))
    {
      size_t i = c->checked; while (g[i] == c->out_ref[i]) i++;
      violation("stream-out-order", "connection %d: byte %zu received by the peer is not the byte written there", c->id, i);
    }
  }
  if (c->tls && on(P12))
    while (!c->handed.empty() && c->w.raw_in >= c->handed.front().first)
    {
      if (!c->w.garbage && !c->w.tls_fail) CHECK(g.size() >= c->handed.front().second, "stream-notify-early", "connection %d: a write notification was made with output still queued (%zu of %llu bytes are in what had been handed over)", c->id, g.size(), (unsigned long long) c->handed.front().second);
      c->handed.pop_front();
    }
  c->checked = std::max<u64>(c->checked, g.size());
}
void pipe_drain(Conn *c) { if (c->ppaused || !c->hr) return; Kernel k; static char b[65536]; ssize_t r = c->hr->read(b, std::min(c->plimit, sizeof b)); if (r > 0) c->pin.append(b, r); out_check(c); if (r > 0 && !c->pb->pages.empty()) after(100, [c] { pipe_drain(c); }); }
void pipe_feed(Conn *c) { if (!c->hw) return; Kernel k; while (!c->pout.empty()) { ssize_t r = c->hw->write(c->pout.data(), std::min<size_t>(c->pout.size(), c->plimit)); if (r <= 0) break; c->pout.take(r); c->pout_done += r; } }

Conn *c_new(LS *x)
{
  Conn *c = new Conn; c->id = W->conns.size(); W->conns.push_back(c); c->owner = x;
  std::vector<int> k; for (int i = 0; i < 3; i++) if (W->p.kinds & (1 << i)) { k.push_back(i); if (!i) k.push_back(i); }
  c->tls = (int) choose(PLAN, 100) >= 100 - W->p.tls;
  c->kind = c->tls || x->canary ? 0 : k[choose(PLAN, k.size())];
  return c;
}
void s_open(LS *x)
{
  Conn *c = c_new(x); int fd; x->c = c; SSL_CTX *ctx = nullptr;
  c->mask = STREAM_READ;
  if (c->kind == 0)
  {
    NetCfg n = random_net(!c->tls || choose(NET, 4) == 3);
    if (W->p.tight ? choose(NET, 5) == 4 : choose(NET, 2)) { n.sndbuf = 1 << 20; n.rcvbuf = 1 << 20; }
    if (W->flood) { n.sndbuf = n.rcvbuf = 8 << 20; n.lat_lo = 0; n.lat_hi = std::min<u64>(n.lat_hi, 100000); if (n.seg) n.seg = 65536; n.ack_delay = 0; }
    if (W->psize == 3000000) { n.sndbuf = std::max(n.sndbuf, 16384u); n.rcvbuf = std::max(n.rcvbuf, 16384u); if (n.seg && n.seg < 1460) n.seg = 1460; }
    Sock *s = new_peer_pair(n, &fd); c->lib = (Sock *) fd_get(fd); c->f = c->lib;
    u32 var = choose(PLAN, 4); c->lib_server = choose(PLAN, 2);
    if (c->tls) ctx = c->lib_server ? tls_srv(var) : tls_cli(var);
    else if (choose(PLAN, 8) == 7) c->mask = 0;
    c->w.read_limit = pick(NET, {0, 30000, 4000, 1}); if (!c->w.read_limit) c->w.read_limit = ~0ull; else if (c->w.read_limit == 1) c->w.read_limit = 300 + choose(NET, 4000);
    if (W->psize == 3000000 && c->w.read_limit < 30000) c->w.read_limit = 30000;
    c->w.read_delay = choose(NET, 3) ? 0 : choose(NET, 100000);
    c->w.on_data = [c] { out_check(c); };
    c->w.attach(s, c->tls, !c->lib_server, var);
  }
  else
  {
    auto b = std::make_shared<PipeBuf>(); c->pb = b.get(); b->slots = pick(NET, {16, 1, 2, 5}); b->page = pick(NET, {4096, 64, 1000}); b->readers = b->writers = 1;
    c->plimit = pick(NET, {1u << 20, 3000, 333}); if (W->psize == 3000000) { b->page = 4096; c->plimit = 1u << 20; }
    PipeR *r; PipeW *w;
    if (c->kind == 1) { c->hr = new HR; r = c->hr; w = new PipeW; c->f = w; c->mask = 0; } else { c->hw = new HW; w = c->hw; r = new PipeR; c->f = r; }
    r->b = w->b = b; b->r = r; b->w = w; r->nonblock = w->nonblock = true;
    if (c->hr) c->hr->on = [c] { pipe_drain(c); }; if (c->hw) c->hw->on = [c] { pipe_feed(c); };
    fd = fd_install(c->f);
  }
  c->out_ref = x->pre; x->pre.clear();
  note("open stream %d: connection %d fd %d kind %d%s%s sndbuf %u rcvbuf %u mask %d", x->id, c->id, fd, c->kind, c->tls ? " tls" : "", c->lib && c->lib->cfg.unix_domain ? " unix" : "", c->lib ? c->lib->cfg.sndbuf : 0, c->lib ? c->lib->cfg.rcvbuf : 0, c->mask);
  stream_open(x->s, fd, c->mask, ctx);
}
LS *s_new(bool open)
{
  LS *x = new LS; x->id = W->v.size(); W->v.push_back(x);
  x->s = (stream *) malloc(sizeof(stream)); memset((void *) x->s, 0xA5, sizeof(stream));
  stream_construct(x->s, s_cb, x);
  if (open) s_open(x);
  return x;
}
void detach(LS *x) { Conn *c = x->c; if (!c) return; c->detached = true; c->owner = nullptr; x->c = nullptr; x->req = false; }
void s_close(LS *x)
{
  note("close stream %d", x->id);
  stream_close(x->s);
  if (x->c)
  {
    Conn *c = x->c; detach(x);
    SC(P15, data_size(stream_read(x->s)) == 0, "stream-close-input", "a closed stream still holds %zu bytes of input", data_size(stream_read(x->s)));
    SC(P15, c->f->refs == 0 || true, "stream-close-fd", "the descriptor of a closed stream is open");
  }
  if (choose(PLAN, 4) == 3) { stream_close(x->s); probe("closed_twice"); }
}
void s_write(LS *x, bool alloc)
{
  if (x->c && x->c->kind == 2) return;
  size_t n = size_pick(PLAN, W->psize); std::string d; fill(d, 500 + x->id, x->woff, n); x->woff += n;
  if (x->c) x->c->out_ref += d; else x->pre += d;
  note("stream %d %s %zu", x->id, alloc ? "allocate" : "write", n);
  if (alloc) { char *p = (char *) stream_allocate(x->s, n); if (n) memcpy(p, d.data(), n); }
  else { char *t = (char *) malloc(n + 1); memcpy(t, d.data(), n); stream_write(x->s, data_construct(t, n)); memset(t, 0xDD, n); free(t); }
}
void s_flush(LS *x) { if (!x->c) { note("flush closed stream %d", x->id); stream_flush(x->s); probe("flush_while_closed"); return; } if (x->c->kind == 2) return; note("flush stream %d", x->id); if (x->c->gone()) probe("flush_to_gone_peer"); stream_flush(x->s); x->c->flushed = x->c->out_ref.size(); }
void s_notify(LS *x) { if (x->c && x->c->kind == 2) return; note("notify stream %d", x->id); if (x->req) probe("notify_merged"); x->req = true; stream_notify(x->s); }
void in_check(LS *x)
{
  Conn *c = x->c; if (!c || !on(P11 | P13 | P14 | P15) || c->w.garbage) return;
  struct data d = stream_read(x->s); u64 total = c->consumed + data_size(d);
  CHECK(total <= c->in_ref.size(), "stream-in-extra", "stream %d offers %llu bytes, the peer only sent %zu", x->id, (unsigned long long) total, c->in_ref.size());
  if (data_size(d) && memcmp(data_base(d), c->in_ref.data() + c->consumed, data_size(d))) violation("stream-in-order", "stream %d: the input offered differs from what the peer sent (position %llu..%llu)", x->id, (unsigned long long) c->consumed, (unsigned long long) total);
  CHECK(total >= c->seen, "stream-in-lost", "stream %d: input offered before is gone (%llu bytes, %llu had been offered)", x->id, (unsigned long long) total, (unsigned long long) c->seen);
}
void s_consume(LS *x)
{
  if (!x->c) return;
  in_check(x); size_t n = data_size(stream_read(x->s)); if (!n) return;
  size_t k = choose(PLAN, 2) ? choose(PLAN, n + 1) : n;
  x->c->seen = std::max<u64>(x->c->seen, x->c->consumed + n);
  stream_consume(x->s, k); x->c->consumed += k; note("stream %d consume %zu of %zu", x->id, k, n);
  in_check(x);
}
void p_send(Conn *c)
{
  if (c->kind == 1 || c->gone() || c->failed || c->w.garbage) return;
  size_t n = W->flood && choose(NET, 2) ? 500000 + choose(NET, 2500000) : size_pick(NET, W->psize); std::string d; fill(d, 9000 + c->id, c->in_off, n); c->in_off += n; c->in_ref += d;
  note("peer of connection %d sends %zu", c->id, n);
  if (c->kind == 0) c->w.send(d); else { c->pout += d; pipe_feed(c); }
}
void p_close(Conn *c, u32 how)
{
  if (c->failed) return;
  note("peer of connection %d ends (%u)", c->id, how);
  if (c->kind == 1) { Kernel k; if (how < 2) pipe_drain(c); c->hr->on = nullptr; c->hr->release(); c->failed = true; fault("reader_gone"); return; }
  if (c->kind == 2) { Kernel k; if (!c->pout.empty()) return; c->hw->on = nullptr; c->hw->release(); c->failed = true; return; }
  switch (how)
  {
  case 0: c->w.half_close(); fault("peer_half_close"); break;
  case 1: c->failed = true; c->w.close_after = true; fault("peer_close"); c->w.pump(); break;
  case 2: c->failed = true; c->w.close(); fault("peer_close_now"); break;
  case 3: c->failed = true; c->w.reset_now(); break;
  case 4: c->failed = true; c->w.closed = true; conn_timeout(c->lib); break;
  case 5: if (!c->tls) return; c->failed = true; c->w.garbage = true; fault("tls_garbage"); c->w.outq.clear(); { std::string g; fill(g, 31337 + c->id, 0, 1 + size_pick(NET, 3000)); if (choose(NET, 2)) { g[0] = 0x16; g[1 % g.size()] = 3; } c->w.send(g); } break;
  case 6: if (c->tls && c->w.ssl && !SSL_in_init(c->w.ssl) && c->w.outq.empty() && !c->w.closed) { c->failed = true; c->w.close_after = true; SSL_shutdown(c->w.ssl); fault("tls_close_notify"); c->w.pump(); } break;
  }
}
void plan_peer(LS *x)
{
  Conn *c = x->c; if (!c) return;
  u32 tot = W->p.psend + W->p.pclose + W->p.pfail + 2, r = choose(PLAN, tot);
  u64 t = mono + between(NET, 0, pick(NET, {0, 3000, 500000, 20000000}));
  if (r < W->p.psend) at(t, [c] { p_send(c); });
  else if (r < W->p.psend + 1) { bool p = choose(NET, 2); at(t, [c, p] { if (c->kind == 0) c->w.set_paused(p); else { c->ppaused = p; pipe_drain(c); } }); }
  else if (r < W->p.psend + 2) { if (c->tls) at(t, [c] { if (!c->w.closed && c->w.ssl && SSL_version(c->w.ssl) == TLS1_3_VERSION && !SSL_in_init(c->w.ssl) && !c->w.garbage && !c->w.tls_fail && !c->updated) { Kernel k; c->updated = true; /* OpenSSL fails a connection whose peer sends two while output is blocked */ SSL_key_update(c->w.ssl, SSL_KEY_UPDATE_REQUESTED); probe("key_update"); c->w.pump(); } }); }
  else if (x->canary) return;
  else if (r < W->p.psend + 2 + W->p.pclose) { u32 h = choose(NET, 3); if (c->tls && !h) h = 6; at(t, [c, h] { p_close(c, h); }); }
  else { u32 h = 2 + choose(FAULT, 4); at(t, [c, h] { p_close(c, h); }); }
}
void s_op(LS *x, bool in_cb)
{
  if (W->ops <= 0) return;
  W->ops--;
  if (!x || !x->alive || choose(PLAN, 3) == 2) x = W->v[choose(PLAN, W->v.size())];
  if (!x->alive) return;
  const Prof &p = W->p; u32 w[] = {2, p.write, p.alloc, p.flush, p.notify, p.consume, p.close, p.reopen, p.destruct, p.psend + p.pclose + p.pfail + 2, p.prewrite};
  u32 tot = 0; for (u32 i : w) tot += i;
  u32 r = choose(PLAN, tot), k = 0; while (r >= w[k]) r -= w[k++];
  if (x->canary && (k == 6 || k == 7 || k == 8)) return;
  switch (k)
  {
  case 1: case 2: if (x->c) { s_write(x, k == 2); if (choose(PLAN, 2)) s_flush(x); } break;
  case 3: s_flush(x); break;
  case 4: s_notify(x); break;
  case 5: s_consume(x); break;
  case 6: s_close(x); break;
  case 7: if (x->c) s_close(x); if (choose(PLAN, 3) == 2) { s_write(x, choose(PLAN, 2)); probe("write_before_open"); } if (choose(PLAN, 4) == 3 && p.notify) { s_notify(x); probe("notify_before_open"); } if (choose(PLAN, 4) == 3) s_flush(x); s_open(x); probe("reopened"); if (in_cb) probe("reopened_in_callback"); break;
  case 8: note("destruct stream %d", x->id); stream_destruct(x->s); detach(x); x->alive = false; memset((void *) x->s, 0xEE, sizeof(stream)); free(x->s); x->s = nullptr; if (W->v.size() < 12) s_new(true); break;
  case 9: plan_peer(x); if (W->flood && !in_cb && choose(NET, 2)) { stall(1000000 + choose(NET, 3000000)); probe("flood"); } break;
  case 10: if (!x->c) { s_write(x, choose(PLAN, 2)); if (p.notify && choose(PLAN, 2)) s_notify(x); s_open(x); probe("write_before_open"); } break;
  }
}
void s_cb(reactor_event *e)
{
  LS *x = (LS *) e->state; int type = e->type;
  note("stream %d callback %s", x->id, type == STREAM_READ ? "READ" : type == STREAM_WRITE ? "WRITE" : "CLOSE");
  CHECK(x->alive, "stream-dead", "stream %d is called back after it was destructed", x->id);
  CHECK(x->c, "stream-dead", "stream %d is called back although it is closed", x->id);
  Conn *c = x->c;
  if (type == STREAM_READ)
  {
    struct data d = stream_read(x->s); u64 total = c->consumed + data_size(d);
    SC(P11 | P15, c->mask & STREAM_READ, "stream-read-unasked", "stream %d reports input although it was opened without asking for it", x->id);
    in_check(x);
    SC(P11 | P13 | P15, total > c->seen || c->w.garbage, "stream-read-empty", "stream %d: a read notification is made but no new bytes arrived", x->id);
    c->seen = total; x->read_cbs++;
    if (choose(PLAN, 4) != 3) s_consume(x);
  }
  else if (type == STREAM_WRITE)
  {
    if (on(P12 | P15))
    {
      if (!x->req)
      {
        CHECK(!c->tls, "stream-notify-unasked", "encrypted stream %d makes a write notification nobody asked for", x->id);
        CHECK(c->pend_begin, "stream-notify-unasked", "stream %d makes a write notification nobody asked for and without output pending", x->id);
        CHECK(c->accepted() >= c->out_ref.size() || c->gone(), "stream-notify-unasked", "stream %d makes a write notification nobody asked for with output still pending", x->id);
        probe("drain_notification");
      }
      else probe("requested_notification");
    }
    if (c->tls && c->lib && x->req && !c->gone()) c->handed.push_back({c->lib->out.W, c->out_ref.size()});
    x->req = false;
    nontrivial();
  }
  else
  {
    CHECK(type == STREAM_CLOSE, "stream-type", "unknown callback type %d", type);
    SC(P11 | P14 | P15 | P13, c->gone(), "stream-close-invented", "stream %d reports a close but its peer is connected", x->id);
    if ((c->mask & STREAM_READ) && !c->w.garbage && on(P11 | P13 | P14) && c->kind != 1)
    {
      u64 arrived = c->tls ? (c->w.s->out.D == c->w.s->out.W && c->w.s->shut_wr && !c->w.s->rst_out && !c->w.tls_fail && c->w.outq.empty() && c->w.raw.empty() && !SSL_in_init(c->w.ssl) && !c->lib->dead ? c->in_ref.size() : 0) : c->kind == 0 ? c->lib->peer_dir->D : c->pout_done;
      CHECK(c->seen >= arrived, "stream-close-early", "stream %d reports the close before it offered everything that arrived (%llu of %llu bytes)", x->id, (unsigned long long) c->seen, (unsigned long long) arrived);
      if (c->kind == 0 && c->w.s->shut_wr && !c->w.s->rst_out && !c->lib->cfg.unix_domain && !c->tls && c->lib->peer_dir->fin_delivered) CHECK(c->seen == c->lib->peer_dir->W, "stream-close-early", "stream %d: data sent before an orderly close is missing (%llu of %llu bytes)", x->id, (unsigned long long) c->seen, (unsigned long long) c->lib->peer_dir->W);
    }
    c->told = true; probe("close_reported"); nontrivial();
    u32 a = choose(PLAN, 8);
    if (a < 5) { s_close(x); if (a == 4 && W->ops > 0) { W->ops--; s_open(x); probe("reopened_in_close"); } }
    else if (a == 5 && !x->canary) { stream_destruct(x->s); detach(x); x->alive = false; memset((void *) x->s, 0xEE, sizeof(stream)); free(x->s); x->s = nullptr; if (W->v.size() < 12) s_new(true); return; }
  }
  u32 k = choose(PLAN, 3); while (k--) s_op(x, true);
}
void s_checks(bool final)
{
  for (Conn *c : W->conns) if (c->kind == 1 && !c->detached) pipe_drain(c);
  for (Conn *c : W->conns)
  {
    out_check(c);
    LS *x = c->owner;
    if (c->detached)
    {
      if (c->kind == 0 && !c->w.closed && c->reading() && final) SC(P15 | P14, c->w.eof || c->w.reset || c->w.s->dead, "stream-close-peer", "connection %d was closed by the library but its peer sees no end", c->id);
      continue;
    }
    in_check(x);
    if (on(P11 | P13 | P14 | P15))
    {
      u64 seen = c->seen;
      if (c->mask & STREAM_READ && !c->w.garbage)
      {
        u64 arr = c->tls ? (c->w.tls_fail || c->w.closed || c->w.s->rst_out || c->lib->dead ? 0 : c->w.paused ? 0 : c->in_ref.size()) : c->kind == 0 ? c->lib->peer_dir->D : c->kind == 2 ? c->pout_done : 0;
        CHECK(seen >= arr, "stream-in-missed", "stream %d: %llu bytes arrived but only %llu were offered when all is quiet", x->id, (unsigned long long) arr, (unsigned long long) seen);
        if (c->kind == 0 && !c->tls && !c->w.closed && !c->lib->dead) CHECK(seen == c->in_ref.size(), "stream-in-missed", "stream %d: the peer sent %zu bytes but only %llu were offered when all is quiet", x->id, c->in_ref.size(), (unsigned long long) seen);
      }
      u32 p = c->f->poll();
      if (on(P11 | P14)) CHECK(!(p & HUPS) || c->told, "stream-close-missed", "stream %d: the connection is gone (%x) but no close was reported when all is quiet", x->id, p & HUPS);
    }
    if (!c->peer_alive() || !c->reading() || (c->tls && (c->w.tls_fail || c->w.tls_closed)) || (c->kind == 0 && c->w.s->shut_wr && c->tls)) continue;
    if (c->tls) SC(P13 | P14 | P15, !SSL_in_init(c->w.ssl), "stream-handshake", "connection %d: the handshake has not completed when all is quiet", c->id);
    if (c->out_ref.size()) SC(P10 | P13 | P14 | P15, c->got().size() >= c->flushed, "stream-out-stuck", "connection %d: %llu bytes were flushed, the peer received %zu and waits for more when all is quiet", c->id, (unsigned long long) c->flushed, c->got().size());
    if (on(P12 | P15)) CHECK(!x->req || (c->kind == 2), "stream-notify-missed", "stream %d (connection %d%s): a requested write notification has not been made when all is quiet", x->id, c->id, c->tls ? ", encrypted" : "");
    if (c->flushed) nontrivial();
  }
}
void timer_cb(reactor_event *) { W->timer_fires++; }
void run_streams(Prof p)
{
  SW w; W = &w; w.p = p; random_env();
  static const u32 sizes[] = {3000, 20, 20000, 150000, 400000};
  u32 n = 1 + choose(CFG, 4), rounds = 1 + choose(CFG, 5); w.ops = 4 + choose(CFG, 40); w.psize = std::min(p.max_size, sizes[choose(CFG, 5)]); if (p.max_size >= 400000 && choose(CFG, 40) == 39) { w.psize = 3000000; w.flood = choose(CFG, 2); }
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks(); u64 ssl = ssl_live;
  sample("streams=%u ops=%d size<=%u rounds=%u eintr=%u stall=%u", n, w.ops, w.psize, rounds, knobs.eintr, knobs.stall);
  on_epoll_return = [](int, const epoll_event *) { for (LS *x : W->v) if (x->alive && x->c) x->c->pend_begin = x->c->accepted() < x->c->out_ref.size(); };
  timer t; bool with_timer = p.self & P14; if (with_timer) { timer_construct(&t, timer_cb, nullptr); timer_set(&t, 1000000, 1000000); }
  for (u32 i = 0; i < n; i++) { LS *x = s_new(choose(PLAN, 5) != 4); if (p.pfail > 5 && i == 0) x->canary = true; if (!x->c) { s_write(x, false); if (p.notify && choose(PLAN, 2)) s_notify(x); s_open(x); } }
  for (u32 r = 0; r < rounds; r++)
  {
    u32 k = 1 + choose(PLAN, 8); while (k--) s_op(nullptr, false);
    u32 st = choose(PLAN, 5); while (st--) { step(); if (choose(PLAN, 3) == 2) s_op(nullptr, false); }
    if (choose(PLAN, 2)) { quiesce(); s_checks(false); }
  }
  w.ops = 0;
  for (Conn *c : w.conns) { c->w.read_limit = ~0ull; c->plimit = ~0ull; c->ppaused = false; c->w.paused = false; if (c->kind == 0 && c->w.garbage && !c->w.closed && !c->detached) p_close(c, 3), c->w.reset_now(); if (c->kind == 0) at(mono, [c] { c->w.pump(); }); if (c->kind == 1) pipe_drain(c); if (c->kind == 2) pipe_feed(c); }
  for (LS *x : w.v) if (x->alive && x->c && choose(PLAN, 3)) s_flush(x);
  quiesce(); s_checks(true);
  if (with_timer) { u64 f = w.timer_fires; settle(5000000); CHECK(w.timer_fires > f, "stream-timer", "a timer stopped because of a failing peer"); timer_destruct(&t); }
  for (LS *x : w.v) if (x->alive) { if (choose(PLAN, 2)) s_close(x); stream_destruct(x->s); detach(x); free(x->s); x->alive = false; }
  quiesce(); for (Conn *c : w.conns) out_check(c);
  CHECK(fd_count() == base, "stream-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "stream-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  for (Conn *c : w.conns) c->w.destroy();
  CHECK(ssl_live == ssl, "stream-ssl-leak", "%lld TLS sessions left", (long long) (ssl_live - ssl));
  step(); reactor_destruct();
}
//                               self tls kinds   max     wr al fl no co cl re de ps pc pf pre tight
void r10() { run_streams(Prof{P10, 0, 3, 400000, 10, 6, 6, 3, 2, 1, 1, 0, 2, 0, 0, 1, true}); }
void r11() { run_streams(Prof{P11, 0, 5, 400000, 2, 0, 1, 1, 8, 1, 1, 0, 14, 4, 2, 0, true}); }
void r12() { run_streams(Prof{P12, 45, 3, 150000, 4, 2, 3, 12, 2, 1, 2, 0, 4, 0, 0, 3, true}); }
void r13() { run_streams(Prof{P13, 100, 1, 400000, 8, 4, 6, 3, 3, 1, 1, 0, 8, 1, 1, 1, true}); }
void r14() { run_streams(Prof{P14, 40, 7, 150000, 6, 2, 5, 2, 2, 1, 2, 1, 6, 4, 10, 0, true}); }
void r15() { run_streams(Prof{P15, 40, 7, 150000, 5, 2, 3, 3, 3, 5, 8, 3, 6, 2, 2, 3, true}); }
Reg g10("C10", "streams_out", r10), g11("C11", "streams_in", r11), g12("C12", "streams_notify", r12), g13("C13", "streams_tls", r13), g14("C14", "streams_fail", r14), g15("C15", "streams_reopen", r15);
}
