// The simulated kernel.
#include "kernel.h"
#include "internal.h"
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>

namespace sim {

static u64 next_id = 1;
Knobs knobs;
static std::vector<File *> fdt;
std::vector<int> fd_closed_log;
std::vector<Inotify *> inotifies;
std::map<std::string, std::shared_ptr<INode>> vfs; std::set<std::string> vfs_links;
FileFaults file_faults;
u64 epoll_waits, epoll_blocks;
std::function<void(int, const epoll_event *)> on_epoll_return;
std::function<void()> on_epoll_enter;
static std::map<std::string, Listener *> listeners;

File::File(Kind k) : kind(k), id(next_id++) {}

int wd_first = 1, fd_floor = 3, fd_room = 1021; static size_t fd_low = 3, fd_used;
void fd_reset() { fdt.assign(3, nullptr); wd_first = 1; fd_floor = 3; fd_room = 1021; fd_low = 3; fd_used = 0; }
int fd_install(File *f, int min)
{
  min = std::max(min, fd_floor); size_t i = std::max<size_t>(min, fd_low); bool low = i == fd_low || (size_t) min == (size_t) fd_floor;
  while (i < fdt.size() && fdt[i]) i++;
  if (i >= (size_t) fd_floor + fd_room) return -EMFILE;
  if (i >= fdt.size()) fdt.resize(i + 1, nullptr);
  fdt[i] = f; f->refs++; fd_used++; if (low) fd_low = i + 1;
  return i;
}
void fd_replace(int fd, File *f) { fdt[fd]->refs--; fdt[fd] = f; f->refs++; }
File *fd_get(int fd) { return fd >= 0 && (size_t) fd < fdt.size() ? fdt[fd] : nullptr; }
static void epoll_forget(File *f)
{
  for (Epitem *it : std::vector<Epitem *>(f->watchers))
  {
    Epoll *e = it->ep; e->items.erase({it->fd, f});
    e->ready.erase(std::remove(e->ready.begin(), e->ready.end(), it), e->ready.end());
  }
  f->watchers.clear();
}
int fd_close(int fd)
{
  File *f = fd_get(fd);
  if (!f) return -EBADF;
  fdt[fd] = nullptr; fd_used--; fd_low = std::min<size_t>(fd_low, fd); fd_closed_log.push_back(fd);
  if (--f->refs == 0) { epoll_forget(f); f->release(); }
  return 0;
}
size_t fd_count() { return fd_used; }
std::string fd_list()
{
  static const char *k[] = {"socket", "listener", "pipe-r", "pipe-w", "eventfd", "timerfd", "inotify", "epoll", "file", "real"};
  std::string s; char b[64];
  for (size_t i = 0; i < fdt.size(); i++) if (fdt[i]) { snprintf(b, sizeof b, "%zu:%s ", i, k[fdt[i]->kind]); s += b; }
  return s;
}

// ---------------------------------------------------------------- epoll
void File::wake(u32 key)
{
  for (Epitem *it : watchers)
  {
    if (it->disabled) continue;
    if (key && !(key & it->events)) continue;
    it->ep->push(it);
  }
}
void Epoll::push(Epitem *it) { if (!it->ready) { it->ready = true; ready.push_back(it); if (!watchers.empty()) wake(EPOLLIN); } }
u32 Epoll::poll() { for (Epitem *it : ready) if (it->file->poll() & it->events) return EPOLLIN; return 0; }
void Epoll::release()
{
  for (auto &p : items) { File *f = p.second->file; f->watchers.erase(std::remove(f->watchers.begin(), f->watchers.end(), p.second), f->watchers.end()); }
  items.clear(); ready.clear();
}
int Epoll::collect(epoll_event *ev, int max)
{
  std::deque<Epitem *> tx; tx.swap(ready);
  int n = 0; std::deque<Epitem *> again;
  while (!tx.empty() && n < max)
  {
    Epitem *it = tx.front(); tx.pop_front(); it->ready = false;
    u32 r = it->file->poll() & it->events;
    if (!r) continue;
    ev[n].events = r; ev[n].data.u64 = it->data; n++;
    if (it->events & EPOLLONESHOT) it->disabled = true;
    else if (!(it->events & EPOLLET)) { it->ready = true; again.push_back(it); }
  }
  // items that were not reached come first, then those still ready (level triggered), then new arrivals
  for (Epitem *it : ready) again.push_back(it);
  ready = tx; for (Epitem *it : again) ready.push_back(it);
  return n;
}

// ---------------------------------------------------------------- sockets
NetCfg random_net(bool allow_unix)
{
  NetCfg c;
  c.sndbuf = pick(NET, {1 << 20, 1 << 18, 65536, 16384, 4096, 2048, 512, 1});
  if (c.sndbuf == 1) c.sndbuf = 1 + choose(NET, 40000);
  c.rcvbuf = pick(NET, {1 << 20, 1 << 18, 65536, 16384, 4096, 1024, 256, 1});
  if (c.rcvbuf == 1) c.rcvbuf = 1 + choose(NET, 70000);
  switch (choose(NET, 5))
  {
  case 0: break;
  case 1: c.lat_hi = 1000; break;
  case 2: c.lat_hi = 100000; break;
  case 3: c.lat_lo = 1000000; c.lat_hi = 30000000; break;
  case 4: c.lat_lo = 500000; c.lat_hi = 500000; break;
  }
  switch (choose(NET, 6))
  {
  case 0: case 1: break;
  case 2: c.seg = 1460; break;
  case 3: c.seg = 65536; break;
  case 4: c.seg = 64; break;
  case 5: c.seg = 8; break;
  }
  c.ack_delay = choose(NET, 3) == 2 ? 40000000 : 0;
  if (allow_unix) c.unix_domain = choose(NET, 3) == 2;
  return c;
}

static Dir dead_dir;
void Sock::wake(u32 key)
{
  if (is_peer)
  {
    if (on_event && !event_pending)
    {
      event_pending = true;
      at(mono, [this] { event_pending = false; if (on_event) on_event(); });
    }
    return;
  }
  File::wake(key);
}
bool Sock::writable()
{
  if (cfg.unix_domain) return (out.charged << 2) <= cfg.sndbuf;
  u64 occ = out.W - out.A;
  return occ <= cfg.sndbuf && cfg.sndbuf - occ >= occ / 2;
}
u32 Sock::poll()
{
  u32 m = 0;
  bool rcv = fin_rcvd || shut_rd || dead, snd = shut_wr || dead;
  if (cfg.unix_domain)
  {
    if (err) m |= EPOLLERR;
    if (rcv && snd) m |= EPOLLHUP;
    if (rcv) m |= EPOLLRDHUP | EPOLLIN | EPOLLRDNORM;
    if (readable()) m |= EPOLLIN | EPOLLRDNORM;
    if (!connected && !dead) m |= EPOLLHUP;
    if (writable()) m |= EPOLLOUT | EPOLLWRNORM | EPOLLWRBAND;
    return m;
  }
  if ((rcv && snd) || (!connected && !connecting)) m |= EPOLLHUP;
  if (rcv) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
  if (!connecting)
  {
    if (readable()) m |= EPOLLIN | EPOLLRDNORM;
    if (!snd)
    {
      if (writable()) m |= EPOLLOUT | EPOLLWRNORM;
      else nospace = true;
    }
    else m |= EPOLLOUT | EPOLLWRNORM;
  }
  if (err) m |= EPOLLERR;
  return m;
}
static void dir_append(Dir &d, const void *p, size_t n) { d.buf.insert(d.buf.end(), (const uint8_t *) p, (const uint8_t *) p + n); d.W += n; }
static void dir_trim(Dir &d)
{
  if (d.R - d.base > 65536 && d.R - d.base > d.buf.size() / 2) { d.buf.erase(d.buf.begin(), d.buf.begin() + (d.R - d.base)); d.base = d.R; }
}
ssize_t Sock::read(void *p, size_t n) { return do_read(p, n, false); }
ssize_t Sock::write(const void *p, size_t n) { return do_write(p, n, false); }

ssize_t Sock::do_read(void *p, size_t n, bool peek)
{
  if (!n) return 0;
  size_t av = readable();
  if (av)
  {
    Dir &d = *peer_dir;
    size_t k = std::min(n, av);
    memcpy(p, d.buf.data() + (d.R - d.base), k);
    if (peek) return k;
    d.R += k;
    if (cfg.unix_domain)
    {
      bool freed = false;
      while (!d.skbs.empty() && d.skbs.front().first <= d.R) { d.charged -= d.skbs.front().second; d.skbs.pop_front(); freed = true; }
      if (peer) { peer->out.A = d.R; if (freed && peer->writable() && !peer->orphan) peer->wake(EPOLLOUT | EPOLLWRNORM | EPOLLWRBAND); }
    }
    else if (peer) peer->pump();
    dir_trim(d);
    return k;
  }
  if (cfg.unix_domain)
  {
    if (err) { int e = err; err = 0; return -e; }
    if (fin_rcvd || shut_rd || dead) return 0;
    if (!connected) return -EINVAL;
    return -EAGAIN;
  }
  if (done) return 0;
  if (err) { int e = err; err = 0; return -e; }
  if (fin_rcvd || shut_rd || dead) return 0;
  if (!connected && !connecting) return -ENOTCONN;
  return -EAGAIN;
}

static void sigpipe() { if (!sigpipe_ignored) violation("killed", "the process is killed by SIGPIPE (write to a connection whose peer is gone)"); probe("sigpipe_ignored"); }

ssize_t Sock::do_write(const void *p, size_t n, bool nosignal)
{
  if (connecting) return -EAGAIN;
  if (err) { int e = err; err = 0; if (e == EPIPE && !nosignal) sigpipe(); return -e; }
  if (dead || shut_wr || !connected) { if (!nosignal) sigpipe(); return -EPIPE; }
  if (!n) return 0;
  if (cfg.unix_domain)
  {
    if (!peer || peer->orphan || (peer->shut_rd)) { if (!nosignal) sigpipe(); return -EPIPE; }
    size_t sent = 0;
    while (sent < n)
    {
      if (out.charged >= cfg.sndbuf) break;
      size_t k = std::min(n - sent, std::max<size_t>(1, cfg.sndbuf / 2 > 64 ? cfg.sndbuf / 2 - 64 : 1));
      dir_append(out, (const char *) p + sent, k);
      out.skbs.push_back({out.W, k + std::min<u64>(256, cfg.sndbuf / 8)}); out.charged += out.skbs.back().second;
      out.S = out.D = out.W; sent += k;
      peer->wake(EPOLLIN | EPOLLRDNORM | EPOLLRDBAND);
    }
    return sent ? (ssize_t) sent : -EAGAIN;
  }
  u64 occ = out.W - out.A;
  size_t room = occ < cfg.sndbuf ? cfg.sndbuf - occ : 0, k = std::min(n, room);
  if (!k) { nospace = true; return -EAGAIN; }
  dir_append(out, p, k);
  if (k < n) { nospace = true; fault("partial_write"); }
  pump();
  return k;
}
void Sock::pump()
{
  if (dead || !connected || cfg.unix_domain) return;
  while (out.S < out.W)
  {
    u64 used = out.S - out.R;
    u64 win = used < peer->cfg.rcvbuf ? peer->cfg.rcvbuf - used : 0;
    if (!win) break;
    u64 seg = std::min(win, out.W - out.S);
    if (cfg.seg)
    {
      u64 m = std::min<u64>(seg, cfg.seg);
      if ((out.W - out.S) / cfg.seg > 400) m = seg;      // keep the number of events bounded
      else if (m > 1) m = 1 + (m - 1 - choose(NET, m));
      seg = m;
    }
    out.S += seg;
    u64 t = mono + between(NET, cfg.lat_lo, cfg.lat_hi);
    if (t < out.last_delivery) t = out.last_delivery;
    out.last_delivery = t;
    u64 upto = out.S;
    at(t, [this, upto] { deliver(upto); });
  }
  maybe_fin();
}
void Sock::maybe_fin()
{
  if (!out.fin_queued || out.fin_sent || out.S < out.W || dead || !connected) return;
  out.fin_sent = true;
  u64 t = std::max(out.last_delivery, mono + between(NET, cfg.lat_lo, cfg.lat_hi));
  out.last_delivery = t;
  at(t, [this] { deliver_fin(); });
}
void Sock::deliver(u64 upto)
{
  if (out.D >= upto) return;
  if (peer->dead) return;
  if (peer->orphan)
  {
    peer->send_rst();
    return;
  }
  out.D = upto;
  hash_add(0xde11 + upto);
  peer->wake(EPOLLIN | EPOLLRDNORM);
  if (cfg.ack_delay && choose(NET, 2)) { u64 d = out.D; after(cfg.ack_delay, [this, d] { if (out.A < d) { out.A = d; write_space(); } }); }
  else { out.A = out.D; write_space(); }
}
void Sock::write_space()
{
  if (dead || orphan) return;
  if (is_peer) { wake(EPOLLOUT); return; }
  if (nospace && writable()) { nospace = false; probe("write_space_wake"); wake(EPOLLOUT | EPOLLWRNORM | EPOLLWRBAND); }
}
void Sock::deliver_fin()
{
  if (peer->dead || peer->fin_rcvd) return;
  out.fin_delivered = true;
  peer->fin_rcvd = true; peer->done = true;
  hash_add(0xf1f1);
  peer->wake(0);
}
void Sock::send_rst()       // this side aborts; the other side learns of it after what is in flight
{
  if (rst_out) return;
  rst_out = true; dead = true;
  u64 unsent = out.W - out.S; lost_out += unsent;
  u64 t = std::max(out.last_delivery, mono + between(NET, cfg.lat_lo, cfg.lat_hi));
  out.last_delivery = t;
  at(t, [this] { peer->reset_from_peer(); });
}
void Sock::reset_from_peer()
{
  if (dead) return;
  err = (fin_rcvd && !shut_wr) ? EPIPE : ECONNRESET;
  lost_out += out.W - out.D;
  dead = true; hash_add(0x4444);
  fault("rst_received");
  wake(EPOLLERR); wake(0);
}
void Sock::fail(int e)
{
  if (dead) return;
  err = e; dead = true; connecting = false; lost_out += out.W - out.D;
  wake(EPOLLERR); wake(0);
}
void Sock::shutdown(int how)
{
  if (how == 0 || how == 2) { shut_rd = true; }
  if (how >= 1 && !shut_wr)
  {
    shut_wr = true;
    if (cfg.unix_domain) { if (peer && !peer->orphan) { peer->fin_rcvd = true; peer->done = true; peer->wake(0); } }
    else { out.fin_queued = true; maybe_fin(); }
  }
  wake(0);
}
void Sock::release()
{
  if (orphan) return;
  orphan = true;
  if (dead || !connected) { dead = true; return; }
  if (cfg.unix_domain)
  {
    bool unread = readable() > 0;
    if (!peer->orphan)
    {
      if (unread) { peer->err = ECONNRESET; peer->lost_out += readable(); }
      peer->fin_rcvd = peer->done = true; peer->shut_wr = true;
      peer->wake(0);
    }
    dead = true;
    return;
  }
  if (readable()) { send_rst(); return; }
  shut_wr = true; out.fin_queued = true; maybe_fin();
}
void sock_pair(Sock *a, Sock *b, const NetCfg &c, bool established)
{
  a->cfg = b->cfg = c; a->peer = b; b->peer = a; a->peer_dir = &b->out; b->peer_dir = &a->out;
  a->connected = b->connected = established;
}
Sock *new_peer_pair(const NetCfg &c, int *fd_out)
{
  Sock *l = new Sock, *p = new Sock;
  sock_pair(l, p, c); p->is_peer = true; l->nonblock = true;
  *fd_out = fd_install(l);
  return p;
}
size_t peer_send(Sock *s, const void *p, size_t n)
{
  if (!n) return 0;
  bool was = sigpipe_ignored; sigpipe_ignored = true;
  ssize_t r = s->do_write(p, n, true);
  sigpipe_ignored = was;
  return r > 0 ? r : 0;
}
size_t peer_recv(Sock *s, void *p, size_t n) { int e = s->err; ssize_t r = s->readable() ? s->do_read(p, n, false) : 0; s->err = e; return r > 0 ? r : 0; }
bool peer_eof(Sock *s) { return s->fin_rcvd && !s->readable(); }
bool peer_dead(Sock *s) { return s->dead; }
void peer_shutdown(Sock *s) { s->shutdown(1); }
void peer_close(Sock *s) { s->on_event = nullptr; s->release(); }
void peer_reset(Sock *s)
{
  s->on_event = nullptr;
  if (s->orphan) return;
  s->orphan = true;
  if (s->dead) return;
  fault("peer_reset");
  if (s->cfg.unix_domain)
  {
    s->dead = true;
    if (!s->peer->orphan) { s->peer->err = ECONNRESET; s->peer->fin_rcvd = s->peer->done = true; s->peer->shut_wr = true; s->peer->wake(0); }
    return;
  }
  s->send_rst();
}
void conn_timeout(Sock *l)
{
  if (l->dead || l->orphan) return;
  fault("conn_timeout");
  l->peer->orphan = true; l->peer->dead = true; l->peer->on_event = nullptr;
  l->fail(ETIMEDOUT);
}

// ---------------------------------------------------------------- pipes
size_t PipeBuf::size() { size_t n = 0, i = 0; for (auto &p : pages) n += p.size() - offs[i++]; return n; }
PipeR::PipeR() : File(PIPER) {}
PipeW::PipeW() : File(PIPEW) {}
u32 PipeR::poll() { u32 m = 0; if (!b->pages.empty()) m |= EPOLLIN | EPOLLRDNORM; if (!b->writers) m |= EPOLLHUP; return m; }
u32 PipeW::poll() { u32 m = 0; if (b->pages.size() < b->slots) m |= EPOLLOUT | EPOLLWRNORM; if (!b->readers) m |= EPOLLERR; return m; }
ssize_t PipeR::read(void *p, size_t n)
{
  if (!n) return 0;
  bool was_full = b->pages.size() >= b->slots; size_t k = 0;
  while (k < n && !b->pages.empty())
  {
    auto &pg = b->pages.front(); size_t &o = b->offs.front();
    size_t c = std::min(n - k, pg.size() - o);
    memcpy((char *) p + k, pg.data() + o, c); o += c; k += c;
    if (o == pg.size()) { b->pages.pop_front(); b->offs.pop_front(); }
  }
  if (was_full && b->pages.size() < b->slots && b->w) b->w->wake(EPOLLOUT | EPOLLWRNORM);
  if (k) return k;
  return b->writers ? -EAGAIN : 0;
}
ssize_t PipeW::write(const void *p, size_t n)
{
  if (!b->readers) { sigpipe(); return -EPIPE; }
  if (!n) return 0;
  size_t k = 0;
  if (!b->pages.empty() && b->pages.back().size() + (n % b->page ? n % b->page : b->page) <= b->page && n % b->page)
  {
    size_t c = n % b->page; b->pages.back().insert(b->pages.back().end(), (const uint8_t *) p, (const uint8_t *) p + c); k = c;
  }
  while (k < n && b->pages.size() < b->slots)
  {
    size_t c = std::min(n - k, b->page);
    b->pages.emplace_back((const uint8_t *) p + k, (const uint8_t *) p + k + c); b->offs.push_back(0); k += c;
  }
  if (k && b->r) b->r->wake(EPOLLIN | EPOLLRDNORM);
  if (k && k < n) fault("partial_write");
  return k ? (ssize_t) k : -EAGAIN;
}
void PipeR::release() { b->readers--; b->r = nullptr; if (b->w) b->w->wake(EPOLLIN | EPOLLOUT | EPOLLRDNORM | EPOLLWRNORM | EPOLLERR | EPOLLHUP); }
void PipeW::release() { b->writers--; b->w = nullptr; if (b->r) b->r->wake(EPOLLIN | EPOLLOUT | EPOLLRDNORM | EPOLLWRNORM | EPOLLERR | EPOLLHUP); }
void pipe_pair(PipeR **r, PipeW **w, size_t slots, size_t page)
{
  auto b = std::make_shared<PipeBuf>(); b->slots = slots; b->page = page; b->readers = b->writers = 1;
  *r = new PipeR; *w = new PipeW; (*r)->b = (*w)->b = b; b->r = *r; b->w = *w;
}

// ---------------------------------------------------------------- listeners
u32 Listener::poll() { return listening ? (queue.empty() ? 0 : EPOLLIN | EPOLLRDNORM) : EPOLLHUP | EPOLLOUT; }
void Listener::release()
{
  for (auto i = listeners.begin(); i != listeners.end();) if (i->second == this) i = listeners.erase(i); else ++i;
  listening = false;
  for (Sock *s : queue) { s->orphan = true; if (!s->dead) s->send_rst(); }
  queue.clear();
}
Listener *new_listener(int *fd_out, const std::string &addr)
{
  Listener *l = new Listener; l->nonblock = true; l->addr = addr; if (!addr.empty()) listeners[addr] = l;
  *fd_out = fd_install(l);
  return l;
}
Listener *find_listener(const std::string &addr) { auto i = listeners.find(addr); return i == listeners.end() ? nullptr : i->second; }
void register_listener(Listener *l) { listeners[l->addr] = l; }
Sock *peer_connect(Listener *l, const NetCfg &c)
{
  if (!l->listening || !l->refs) return nullptr;
  if (l->queue.size() > std::min<u32>(l->backlog, 4096)) { fault("backlog_full"); return nullptr; }     // net.core.somaxconn
  Sock *srv = new Sock, *cl = new Sock; sock_pair(srv, cl, c); cl->is_peer = true;
  l->queue.push_back(srv); l->wake(EPOLLIN | EPOLLRDNORM);
  return cl;
}

// ---------------------------------------------------------------- eventfd, timerfd
u32 EventFd::poll() { u32 m = 0; if (count > 0) m |= EPOLLIN; if (count == ~0ull) m |= EPOLLERR; if (count < ~0ull - 1) m |= EPOLLOUT; return m; }
ssize_t EventFd::read(void *p, size_t n)
{
  if (n < 8) return -EINVAL;
  if (!count) return -EAGAIN;
  u64 v = sem ? 1 : count; count -= v; memcpy(p, &v, 8); wake(EPOLLOUT);
  return 8;
}
ssize_t EventFd::write(const void *p, size_t n)
{
  u64 v;
  if (n < 8) return -EINVAL;
  memcpy(&v, p, 8);
  if (v == ~0ull) return -EINVAL;
  if (~0ull - 1 - count < v) return -EAGAIN;
  count += v; wake(EPOLLIN);
  return 8;
}
static std::vector<TimerFd *> timerfds;
TimerFd::TimerFd() : File(TIMERFD) { timerfds.push_back(this); }
void step_clock(int64_t d)
{
  if (real_off + d < 0) d = -real_off;         // Linux refuses a wall clock before the boot
  fault("clock_step"); real_off += d; hash_add(d);
  for (TimerFd *t : timerfds)
    if (t->abs_real && t->ev) { cancel_event(t->ev); int64_t due = (int64_t) t->due - d; t->due = due < (int64_t) mono ? mono : due; t->ev = at(t->due, [t] { t->ev = 0; t->fire(); }, true); }
}
u32 TimerFd::poll() { return ticks ? EPOLLIN : 0; }
void TimerFd::arm(u64 v, u64 i)
{
  if (ev) cancel_event(ev);
  ev = 0; ticks = 0; expired = false; armed = v != 0; interval = i;
  if (v) { due = mono + v; if (due < mono) due = ~0ull - 1; ev = at(due, [this] { ev = 0; fire(); }, true); }
}
void TimerFd::fire() { expired = true; ticks++; if (!interval) armed = false; hash_add(0x7f7f); wake(EPOLLIN); }
ssize_t TimerFd::read(void *p, size_t n)
{
  if (n < 8) return -EINVAL;
  if (!ticks) return -EAGAIN;
  u64 t = ticks;
  if (expired && interval)
  {
    u64 k = (mono - due) / interval + 1; due += k * interval; t += k - 1;
    if (k > 1) probe("timer_overrun");
    ev = at(due, [this] { ev = 0; fire(); }, true);
  }
  expired = false; ticks = 0;
  memcpy(p, &t, 8);
  return 8;
}
void TimerFd::release() { if (ev) cancel_event(ev); ev = 0; timerfds.erase(std::remove(timerfds.begin(), timerfds.end(), this), timerfds.end()); }

// ---------------------------------------------------------------- inotify
u32 Inotify::poll() { return q.empty() ? 0 : EPOLLIN | EPOLLRDNORM; }
void Inotify::release() { inotifies.erase(std::remove(inotifies.begin(), inotifies.end(), this), inotifies.end()); }
bool Inotify::queue(int wd, u32 mask, u32 cookie, const std::string &name)
{
  Ev e{wd, mask, cookie, name};
  if (q.size() >= max_queued)
  {
    if (!overflowed) { overflowed = true; q.push_back({-1, IN_Q_OVERFLOW, 0, ""}); fault("inotify_overflow"); if (on_queued) on_queued(q.back()); wake(EPOLLIN | EPOLLRDNORM); }
    return false;
  }
  if (!q.empty())
  {
    Ev &l = q.back();
    if (l.mask == e.mask && l.wd == e.wd && l.name == e.name && l.cookie == e.cookie && !(mask & IN_IGNORED)) { probe("inotify_coalesced"); return false; }
  }
  q.push_back(e); if (on_queued) on_queued(e);
  wake(EPOLLIN | EPOLLRDNORM);
  return true;
}
ssize_t Inotify::read(void *p, size_t n)
{
  size_t k = 0;
  if (q.empty()) return -EAGAIN;
  while (!q.empty())
  {
    Ev &e = q.front();
    size_t nl = e.name.empty() ? 0 : (e.name.size() + 1 + 15) / 16 * 16;
    if (k + 16 + nl > n) { if (!k) return -EINVAL; break; }
    struct inotify_event h; memset(&h, 0, sizeof h); h.wd = e.wd; h.mask = e.mask; h.cookie = e.cookie; h.len = nl;
    memcpy((char *) p + k, &h, 16);
    if (nl) { std::string s = e.name; s.resize(nl, 0); memcpy((char *) p + k + 16, s.data(), nl); }
    k += 16 + nl;
    if (e.mask & IN_Q_OVERFLOW) overflowed = false;
    q.pop_front();
  }
  return k;
}
void fs_event(const std::string &path, u32 mask, const std::string &name, u32 cookie)
{
  for (Inotify *in : std::vector<Inotify *>(inotifies))
    for (auto &w : std::map<int, std::pair<std::string, u32>>(in->wds))
      if (w.second.first == path && ((w.second.second & mask & IN_ALL_EVENTS) || (mask & IN_UNMOUNT)))
      {
        in->queue(w.first, mask, cookie, name);
        if (w.second.second & IN_ONESHOT) { in->wds.erase(w.first); in->queue(w.first, IN_IGNORED, 0, ""); }
      }
  if (mask & (IN_DELETE_SELF | IN_UNMOUNT))
    for (Inotify *in : std::vector<Inotify *>(inotifies))
      for (auto &w : std::map<int, std::pair<std::string, u32>>(in->wds))
        if (w.second.first == path) { in->queue(w.first, IN_IGNORED, 0, ""); in->wds.erase(w.first); }
}

// ---------------------------------------------------------------- files
u32 RegFile::poll() { return EPOLLIN | EPOLLOUT; }
ssize_t RegFile::read(void *p, size_t len)
{
  if (!rd) return -EBADF;
  if (n->dir) return -EISDIR;
  u64 av = pos < n->data.size() ? n->data.size() - pos : 0;
  size_t k = std::min<u64>(av, len);
  if (k > 1 && file_faults.short_reads && chance(FAULT, 1, 2)) { k = 1 + choose(FAULT, k - 1); fault("short_read"); }
  memcpy(p, n->data.data() + pos, k); pos += k;
  return k;
}
ssize_t RegFile::write(const void *p, size_t len)
{
  if (!wr) return -EBADF;
  size_t k = len;
  if (k > 1 && file_faults.short_writes && chance(FAULT, 1, 2)) { k = 1 + choose(FAULT, k - 1); fault("short_write"); }
  if (append) pos = n->data.size();
  if (n->data.size() < pos + k) n->data.resize(pos + k);
  memcpy(n->data.data() + pos, p, k); pos += k;
  return k;
}

// ---------------------------------------------------------------- addrinfo
std::function<int(const char *, const char *, const addrinfo *, addrinfo **)> resolve_hook;
u64 addrinfo_live, addrinfo_made;
static std::set<addrinfo *> ai_live;
addrinfo *make_addrinfo(int family, int type, int flags, u32 port, const char *ip, int n)
{
  addrinfo *head = nullptr;
  for (int i = n - 1; i >= 0; i--)
  {
    addrinfo *a = (addrinfo *) calloc(1, sizeof *a);
    a->ai_family = family; a->ai_socktype = type; a->ai_flags = flags; a->ai_next = head;
    if (family == AF_INET6) { auto *s = (sockaddr_in6 *) calloc(1, sizeof(sockaddr_in6)); s->sin6_family = family; s->sin6_port = htons(port); inet_pton(family, ip, &s->sin6_addr); a->ai_addr = (sockaddr *) s; a->ai_addrlen = sizeof *s; }
    else { auto *s = (sockaddr_in *) calloc(1, sizeof(sockaddr_in)); s->sin_family = family; s->sin_port = htons(port + i); inet_pton(family, ip, &s->sin_addr); a->ai_addr = (sockaddr *) s; a->ai_addrlen = sizeof *s; }
    head = a;
  }
  if (head) { ai_live.insert(head); addrinfo_live++; addrinfo_made++; }
  return head;
}
void addrinfo_release(addrinfo *a)
{
  if (!a) return;
  if (!ai_live.count(a)) violation("addrinfo-double-free", "an address list is released that is not (or no longer) allocated");
  ai_live.erase(a); addrinfo_live--;
  while (a) { addrinfo *n = a->ai_next; free(a->ai_addr); free(a); a = n; }
}
}
