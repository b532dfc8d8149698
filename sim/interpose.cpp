// libc entry points as seen by the library (renamed sim_*) and by OpenSSL (read, write, time functions).
#include "kernel.h"
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unordered_map>
#include <openssl/ssl.h>

namespace sim {
bool active = false;             // a run is in progress
static std::unordered_map<void *, size_t> blocks; static size_t bytes;
u64 ssl_live = 0, ctx_live = 0;
bool sigpipe_ignored = false;
static SigH handlers[65];
void (*sig_handler_of(int s))(int) { return handlers[s]; }
std::function<int(Sock *, const std::string &)> connect_hook;
std::set<std::string> time_wait;  // addresses that need SO_REUSEADDR
static std::set<u64> reuse_addr, reuse_port;
int last_listen_backlog = 0;

size_t lib_blocks() { return blocks.size(); }
size_t lib_bytes() { return bytes; }
std::string lib_blocks_list() { std::vector<size_t> v; for (auto &b : blocks) v.push_back(b.second); std::sort(v.begin(), v.end()); std::string s; char t[32]; for (size_t i = 0; i < v.size() && i < 20; i++) { snprintf(t, sizeof t, "%zu ", v[i]); s += t; } return s; }

static void enter(bool cancel_point)
{
  if (in_kernel || !active) return;
  syscalls++; sys_progress();
  mono += knobs.cost;
  if (knobs.stall && chance(FAULT, knobs.stall, 1000)) { u64 d = between(FAULT, 0, knobs.stall_max); fault("stall"); stall(d); }
  run_due();
  deliver_signals();
  yield_point();
  if (cancel_point) cancel_check();
}
static long leave(const char *name, int fd, long r)
{
  if (active) { hash_add(mix(mix(name[0] * 256 + name[1] + ((u64) strlen(name) << 16), fd), mix(r, mono))); note("%s(%d) = %ld%s%s", name, fd, r, r < 0 ? " " : "", r < 0 ? strerror(-r) : ""); }
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
static bool is_nonblock(File *f) { return f->nonblock; }

static long do_read(int fd, void *p, size_t n)
{
  File *f = fd_get(fd);
  if (!f) return -EBADF;
  if (f->kind == File::REAL) return syscall(SYS_read, f->oflags, p, n);
  while (1)
  {
    long r = f->read(p, n);
    if (r != -EAGAIN || is_nonblock(f)) return r;
    std::function<bool()> pred = [f] { return f->poll() & (EPOLLIN | EPOLLHUP | EPOLLERR | EPOLLRDHUP); };
    block_until(pred, ~0ull, true, nullptr);
  }
}
static long do_write(int fd, const void *p, size_t n, bool nosignal = false)
{
  File *f = fd_get(fd);
  if (!f) return -EBADF;
  if (f->kind == File::REAL) return syscall(SYS_write, f->oflags, p, n);
  size_t done = 0;
  while (1)
  {
    long r = f->kind == File::SOCK ? ((Sock *) f)->do_write((const char *) p + done, n - done, nosignal) : f->write((const char *) p + done, n - done);
    if (r > 0) done += r;
    if (is_nonblock(f) || (r < 0 && r != -EAGAIN) || done >= n || f->kind == File::REG || r == 0) return done ? done : r;
    if (done && knobs.short_xfer && chance(FAULT, knobs.short_xfer, 1000)) { fault("interrupted_write"); return done; }
    std::function<bool()> pred = [f] { return f->poll() & (EPOLLOUT | EPOLLHUP | EPOLLERR); };
    block_until(pred, ~0ull, true, nullptr);
  }
}
}
using namespace sim;

#define RET(name, fd, expr) do { long r_ = (expr); return leave(name, fd, r_); } while (0)
static inline void acc(const void *p) { if (__builtin_expect(sim::many, 0)) { sim::on_access(); if (sim::is_shared(p)) sim::on_shared(); } }
static bool shared_source(const void *s) { return sim::is_shared(s); }
static bool shared_source(int) { return false; }
template<class F> static void copy_piece(F f, void *d, const void *s, size_t o, size_t n) { f((char *) d + o, (const char *) s + o, n); }
template<class F> static void copy_piece(F f, void *d, int s, size_t o, size_t n) { f((char *) d + o, s, n); }
extern "C" {

// ---- read/write family
ssize_t sim_read(int fd, void *p, size_t n) { enter(true); RET("read", fd, do_read(fd, p, n)); }
ssize_t sim_write(int fd, const void *p, size_t n) { enter(true); RET("write", fd, do_write(fd, p, n)); }
ssize_t sim_pread(int fd, void *p, size_t n, off_t o) { enter(true); File *f = fd_get(fd); if (!f || f->kind != File::REG) { errno = EBADF; return -1; } RegFile *g = (RegFile *) f; u64 s = g->pos; g->pos = o; long r = g->read(p, n); g->pos = s; return leave("pread", fd, r); }
ssize_t sim_pwrite(int fd, const void *p, size_t n, off_t o) { enter(true); File *f = fd_get(fd); if (!f || f->kind != File::REG) { errno = EBADF; return -1; } RegFile *g = (RegFile *) f; u64 s = g->pos; g->pos = o; long r = g->write(p, n); g->pos = s; return leave("pwrite", fd, r); }
static long iov_write(int fd, const struct iovec *v, int c, bool ns)
{
  std::vector<char> b; for (int i = 0; i < c; i++) b.insert(b.end(), (char *) v[i].iov_base, (char *) v[i].iov_base + v[i].iov_len);
  return do_write(fd, b.data(), b.size(), ns);
}
static long iov_read(int fd, const struct iovec *v, int c)
{
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  std::vector<char> b(n + 1); long r = do_read(fd, b.data(), n); size_t o = 0;
  for (int i = 0; i < c && r > 0 && o < (size_t) r; i++) { size_t k = std::min<size_t>(v[i].iov_len, r - o); memcpy(v[i].iov_base, b.data() + o, k); o += k; }
  return r;
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) { enter(true); RET("readv", fd, iov_read(fd, v, c)); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { enter(true); RET("writev", fd, iov_write(fd, v, c, false)); }
static Sock *sock_of(int fd, long *e) { File *f = fd_get(fd); if (!f) { *e = -EBADF; return nullptr; } if (f->kind != File::SOCK) { *e = -ENOTSOCK; return nullptr; } return (Sock *) f; }
ssize_t sim_recv(int fd, void *p, size_t n, int fl)
{
  enter(true); long e; Sock *s = sock_of(fd, &e); if (!s) return leave("recv", fd, e);
  if (fl & MSG_PEEK) return leave("recv", fd, s->do_read(p, n, true));
  bool nb = s->nonblock; if (fl & MSG_DONTWAIT) s->nonblock = true; long r = do_read(fd, p, n); s->nonblock = nb; return leave("recv", fd, r);
}
ssize_t sim_send(int fd, const void *p, size_t n, int fl)
{
  enter(true); long e; Sock *s = sock_of(fd, &e); if (!s) return leave("send", fd, e);
  bool nb = s->nonblock; if (fl & MSG_DONTWAIT) s->nonblock = true; long r = do_write(fd, p, n, fl & MSG_NOSIGNAL); s->nonblock = nb; return leave("send", fd, r);
}
ssize_t sim_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *, socklen_t *l) { if (l) *l = 0; return sim_recv(fd, p, n, fl); }
ssize_t sim_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, p, n, fl); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int) { enter(true); RET("recvmsg", fd, iov_read(fd, m->msg_iov, m->msg_iovlen)); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { enter(true); RET("sendmsg", fd, iov_write(fd, m->msg_iov, m->msg_iovlen, fl & MSG_NOSIGNAL)); }

int sim_close(int fd) { enter(true); RET("close", fd, fd_close(fd)); }
int sim_dup(int fd) { enter(false); File *f = fd_get(fd); RET("dup", fd, f ? fd_install(f) : -EBADF); }
int sim_dup3(int o, int n, int)
{
  enter(false); File *f = fd_get(o); if (!f) return leave("dup3", o, -EBADF);
  if (o == n) return leave("dup3", o, -EINVAL);
  if (fd_get(n)) fd_close(n);
  return leave("dup3", o, fd_install(f, n));
}
int sim_dup2(int o, int n) { if (o == n) return fd_get(o) ? n : (errno = EBADF, -1); return sim_dup3(o, n, 0); }
int sim_fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  enter(false); File *f = fd_get(fd); long r = 0;
  if (!f) r = -EBADF;
  else if (cmd == F_GETFL) r = O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  else if (cmd == F_SETFL) f->nonblock = arg & O_NONBLOCK;
  else if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) r = fd_install(f, arg < 3 ? 3 : arg);
  return leave("fcntl", fd, r);
}
int sim_ioctl(int fd, unsigned long req, ...)
{
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  enter(false); File *f = fd_get(fd); long r = 0;
  if (!f) r = -EBADF;
  else if (req == FIONBIO) f->nonblock = *(int *) arg;
  else if (req == FIONREAD) { int v = 0; if (f->kind == File::SOCK) v = ((Sock *) f)->readable(); else if (f->kind == File::PIPER) v = ((PipeR *) f)->b->size(); else if (f->kind == File::INOTIFY) { for (auto &e : ((Inotify *) f)->q) v += 16 + (e.name.empty() ? 0 : (e.name.size() + 16) / 16 * 16); } *(int *) arg = v; }
  else r = -ENOTTY;
  return leave("ioctl", fd, r);
}
static long do_fstat(int fd, struct stat *st)
{
  File *f = fd_get(fd); memset(st, 0, sizeof *st);
  if (!f) return -EBADF;
  switch (f->kind)
  {
  case File::SOCK: case File::LISTEN: st->st_mode = S_IFSOCK | 0777; break;
  case File::PIPER: case File::PIPEW: st->st_mode = S_IFIFO | 0600; break;
  case File::REG: st->st_mode = (((RegFile *) f)->n->dir ? S_IFDIR : S_IFREG) | 0644; st->st_size = ((RegFile *) f)->n->data.size(); break;
  case File::REAL: return syscall(SYS_fstat, f->oflags, st) ? -errno : 0;
  default: st->st_mode = 0600; break;
  }
  st->st_blksize = 4096;
  return 0;
}
int sim_fstat(int fd, struct stat *st) { enter(false); RET("fstat", fd, do_fstat(fd, st)); }

// ---- files
static bool virt(const char *p) { return strncmp(p, "/sim/", 5) == 0 || strcmp(p, "/sim") == 0; }
static long do_open(const char *path, int fl)
{
  if (!virt(path))
  {
    int r = syscall(SYS_open, path, fl | O_CLOEXEC, 0600);
    if (r < 0) return -errno;
    struct RealFile : File { RealFile() : File(REAL) {} void release() override { syscall(SYS_close, oflags); } };
    RealFile *f = new RealFile; f->oflags = r; return fd_install(f);
  }
  auto i = vfs.find(path);
  if (i == vfs.end())
  {
    if (!(fl & O_CREAT)) return -ENOENT;
    vfs[path] = std::make_shared<INode>(); i = vfs.find(path);
  }
  else if ((fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST;
  if ((fl & O_NOFOLLOW) && vfs_links.count(path)) return -ELOOP;
  if ((fl & O_DIRECTORY) && !i->second->dir) return -ENOTDIR;
  if (i->second->open_special) return i->second->open_special(fl);
  if (i->second->dir && (fl & O_ACCMODE) != O_RDONLY) return -EISDIR;
  if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) i->second->data.clear();
  RegFile *f = new RegFile; f->n = i->second; f->oflags = fl;
  f->rd = (fl & O_ACCMODE) != O_WRONLY; f->wr = (fl & O_ACCMODE) != O_RDONLY; f->append = fl & O_APPEND;
  int fd = fd_install(f); if (fd < 0) delete f;
  return fd;
}
int sim_open(const char *p, int fl, ...) { enter(true); RET("open", fl, do_open(p, fl)); }
int sim_openat(int, const char *p, int fl, ...) { enter(true); RET("open", fl, do_open(p, fl)); }
int sim_creat(const char *p, mode_t) { enter(true); RET("open", 0, do_open(p, O_WRONLY | O_CREAT | O_TRUNC)); }
off_t sim_lseek(int fd, off_t o, int w)
{
  enter(false); File *f = fd_get(fd); if (!f) return leave("lseek", fd, -EBADF); if (f->kind != File::REG) return leave("lseek", fd, -ESPIPE);
  RegFile *g = (RegFile *) f; long long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long long) g->pos : (long long) g->n->data.size(); if (b + o < 0) return leave("lseek", fd, -EINVAL);
  g->pos = b + o; return leave("lseek", fd, g->pos);
}
int sim_ftruncate(int fd, off_t l) { enter(false); File *f = fd_get(fd); if (!f || f->kind != File::REG || !((RegFile *) f)->wr) return leave("ftruncate", fd, f ? -EINVAL : -EBADF); ((RegFile *) f)->n->data.resize(l); return leave("ftruncate", fd, 0); }
int sim_fsync(int fd) { enter(true); RET("fsync", fd, fd_get(fd) ? 0 : -EBADF); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_unlink(const char *p) { enter(false); if (!virt(p)) { errno = EPERM; return -1; } RET("unlink", 0, vfs.erase(p) ? 0 : -ENOENT); }
int sim_rename(const char *a, const char *b) { enter(false); if (!virt(a) || !virt(b)) { errno = EPERM; return -1; } auto i = vfs.find(a); if (i == vfs.end()) return leave("rename", 0, -ENOENT); vfs[b] = i->second; vfs.erase(a); return leave("rename", 0, 0); }
int sim_stat(const char *p, struct stat *st)
{
  enter(false); if (!virt(p)) return syscall(SYS_stat, p, st);
  auto i = vfs.find(p); if (i == vfs.end()) return leave("stat", 0, -ENOENT);
  memset(st, 0, sizeof *st); st->st_mode = (i->second->dir ? S_IFDIR : S_IFREG) | 0644; st->st_size = i->second->data.size(); return leave("stat", 0, 0);
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_access(const char *p, int m) { enter(false); if (!virt(p)) return syscall(SYS_access, p, m); RET("access", 0, vfs.count(p) ? 0 : -ENOENT); }

// ---- epoll
int sim_epoll_create1(int) { enter(false); RET("epoll_create", 0, fd_install(new Epoll)); }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
static long do_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  File *e = fd_get(ep), *f = fd_get(fd);
  if (!e || !f) return -EBADF;
  if (e->kind != File::EPOLL || e == f) return -EINVAL;
  if (f->kind == File::REG || f->kind == File::REAL) return -EPERM;
  Epoll *p = (Epoll *) e; auto key = std::make_pair(fd, f); auto i = p->items.find(key);
  if (op == EPOLL_CTL_ADD)
  {
    if (i != p->items.end()) return -EEXIST;
    Epitem *it = new Epitem{p, f, fd, ev->events | EPOLLERR | EPOLLHUP, ev->data.u64, false, false};
    p->items[key] = it; f->watchers.push_back(it);
    if (f->poll() & it->events) p->push(it);
    return 0;
  }
  if (i == p->items.end()) return -ENOENT;
  Epitem *it = i->second;
  if (op == EPOLL_CTL_MOD)
  {
    it->events = ev->events | EPOLLERR | EPOLLHUP; it->data = ev->data.u64; it->disabled = false;
    if (f->poll() & it->events) p->push(it);
    return 0;
  }
  if (op == EPOLL_CTL_DEL)
  {
    p->items.erase(i); f->watchers.erase(std::remove(f->watchers.begin(), f->watchers.end(), it), f->watchers.end());
    p->ready.erase(std::remove(p->ready.begin(), p->ready.end(), it), p->ready.end());
    return 0;
  }
  return -EINVAL;
}
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { enter(false); long r = do_epoll_ctl(ep, op, fd, ev); return leave(op == EPOLL_CTL_ADD ? "epoll_add" : op == EPOLL_CTL_MOD ? "epoll_modify" : "epoll_delete_", fd, r); }
static long do_epoll_wait(int ep, struct epoll_event *ev, int max, u64 deadline)
{
  File *e = fd_get(ep);
  if (!e) return -EBADF;
  if (e->kind != File::EPOLL || max <= 0) return -EINVAL;
  Epoll *p = (Epoll *) e;
  epoll_waits++;
  if (on_epoll_enter) on_epoll_enter();
  bool blocked = false;
  while (1)
  {
    int n = p->collect(ev, max);
    if (n)
    {
      if (n == max && !p->ready.empty()) probe("epoll_batch_full");
      if (n > 1) probe("epoll_multi_event_batch");
      return n;
    }
    if (mono >= deadline) return 0;
    if (!blocked) { blocked = true; epoll_blocks++; }
    if (knobs.eintr && chance(FAULT, knobs.eintr, 1000)) { fault("epoll_eintr"); return -EINTR; }
    int intr = 0;
    std::function<bool()> pred = [p] { return p->poll() != 0; };
    block_until(pred, deadline, true, &intr);
    if (intr) { deliver_signals(); return -EINTR; }
  }
}
static long epoll_wait_common(int ep, struct epoll_event *ev, int max, u64 deadline)
{
  enter(true);
  long r = do_epoll_wait(ep, ev, max, deadline);
  if (r > 0) { for (int i = 0; i < r; i++) hash_add(ev[i].events); }
  if (on_epoll_return) { in_kernel++; on_epoll_return(r, ev); in_kernel--; }
  return r;
}
int sim_epoll_wait(int ep, struct epoll_event *ev, int max, int to) { RET("epoll_wait", ep, epoll_wait_common(ep, ev, max, to < 0 ? ~0ull : mono + to * 1000000ull)); }
int sim_epoll_pwait(int ep, struct epoll_event *ev, int max, int to, const sigset_t *) { return sim_epoll_wait(ep, ev, max, to); }
int sim_epoll_pwait2(int ep, struct epoll_event *ev, int max, const struct timespec *to, const sigset_t *) { RET("epoll_wait", ep, epoll_wait_common(ep, ev, max, to ? mono + to->tv_sec * 1000000000ull + to->tv_nsec : ~0ull)); }
int sim_poll(struct pollfd *p, nfds_t n, int to)
{
  enter(true); u64 dl = to < 0 ? ~0ull : mono + to * 1000000ull;
  auto scan = [&] { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; File *f = fd_get(p[i].fd); p[i].revents = f ? (short) (f->poll() & (p[i].events | POLLERR | POLLHUP)) : POLLNVAL; k += p[i].revents != 0; } return k; };
  int intr = 0; std::function<bool()> pred = [&] { return scan() > 0; };
  block_until(pred, dl, true, &intr);
  if (intr) { deliver_signals(); return leave("poll", 0, -EINTR); }
  return leave("poll", 0, scan());
}
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return sim_poll(p, n, t ? (int) (t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }

// ---- eventfd, timerfd, inotify
int sim_eventfd(unsigned c, int fl) { enter(false); EventFd *f = new EventFd(c, fl & EFD_SEMAPHORE); f->nonblock = fl & EFD_NONBLOCK; RET("eventfd", fl, fd_install(f)); }
int sim_eventfd_read(int fd, eventfd_t *v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; }
int sim_eventfd_write(int fd, eventfd_t v) { return sim_write(fd, &v, 8) == 8 ? 0 : -1; }
int sim_timerfd_create(int c, int fl) { enter(false); TimerFd *f = new TimerFd; f->clock = c; f->nonblock = fl & TFD_NONBLOCK; RET("timerfd_create", fl, fd_install(f)); }
static u64 clock_ns(int c) { if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) return (c == CLOCK_REALTIME_COARSE ? realtime() : mono) - mono % 4000000;   /* as of the last tick */
  return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? realtime() : mono; }
static long do_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
  File *f = fd_get(fd); if (!f) return -EBADF; if (f->kind != File::TIMERFD) return -EINVAL;
  TimerFd *t = (TimerFd *) f;
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_value.tv_sec < 0 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec > 999999999 || n->it_interval.tv_sec < 0) return -EINVAL;
  if (o) { memset(o, 0, sizeof *o); u64 r = t->armed && t->due > mono ? t->due - mono : 0; o->it_value.tv_sec = r / 1000000000; o->it_value.tv_nsec = r % 1000000000; o->it_interval.tv_sec = t->interval / 1000000000; o->it_interval.tv_nsec = t->interval % 1000000000; }
  __int128 v = (__int128) n->it_value.tv_sec * 1000000000 + n->it_value.tv_nsec; u64 i = n->it_interval.tv_sec > 4000000000ll ? ~0ull >> 2 : n->it_interval.tv_sec * 1000000000ull + n->it_interval.tv_nsec;
  if (v && (fl & TFD_TIMER_ABSTIME)) { __int128 now = clock_ns(t->clock); v = v > now ? v - now : 1; }
  if (v > (__int128) (~0ull >> 2)) v = ~0ull >> 2;
  t->abs_real = (fl & TFD_TIMER_ABSTIME) && t->clock == CLOCK_REALTIME;
  t->arm((u64) v, i);
  return 0;
}
int sim_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) { enter(false); RET("timerfd_settime", fd, do_settime(fd, fl, n, o)); }
int sim_timerfd_gettime(int fd, struct itimerspec *o)
{
  enter(false); File *f = fd_get(fd); if (!f || f->kind != File::TIMERFD) return leave("timerfd_gettime", fd, f ? -EINVAL : -EBADF);
  TimerFd *t = (TimerFd *) f; u64 r = t->armed && t->due > mono ? t->due - mono : 0;
  o->it_value.tv_sec = r / 1000000000; o->it_value.tv_nsec = r % 1000000000; o->it_interval.tv_sec = t->interval / 1000000000; o->it_interval.tv_nsec = t->interval % 1000000000;
  return leave("timerfd_gettime", fd, 0);
}
int sim_inotify_init1(int fl) { enter(false); Inotify *f = new Inotify; f->nonblock = fl & IN_NONBLOCK; inotifies.push_back(f); RET("inotify_init1", fl, fd_install(f)); }
int sim_inotify_init(void) { return sim_inotify_init1(0); }
static long do_add_watch(int fd, const char *path, u32 mask)
{
  File *f = fd_get(fd); if (!f) return -EBADF; if (f->kind != File::INOTIFY) return -EINVAL;
  Inotify *in = (Inotify *) f;
  if (!(mask & IN_ALL_EVENTS)) return -EINVAL;
  if (!vfs.count(path)) return -ENOENT;
  if ((mask & IN_ONLYDIR) && !vfs[path]->dir) return -ENOTDIR;
  for (auto &w : in->wds) if (w.second.first == path) { if (mask & IN_MASK_CREATE) return -EEXIST; if (mask & IN_MASK_ADD) w.second.second |= mask; else w.second.second = mask; return w.first; }
  int wd = in->next_wd++; in->wds[wd] = {path, mask}; return wd;
}
int sim_inotify_add_watch(int fd, const char *path, uint32_t mask) { enter(false); RET("inotify_add_watch", fd, do_add_watch(fd, path, mask)); }
int sim_inotify_rm_watch(int fd, int wd)
{
  enter(false); File *f = fd_get(fd); if (!f || f->kind != File::INOTIFY) return leave("inotify_rm_watch", fd, f ? -EINVAL : -EBADF);
  Inotify *in = (Inotify *) f; if (!in->wds.count(wd)) return leave("inotify_rm_watch", fd, -EINVAL);
  in->wds.erase(wd); in->queue(wd, IN_IGNORED, 0, ""); return leave("inotify_rm_watch", fd, 0);
}

// ---- sockets
int last_socket[3]; std::string last_bind, last_connect;
int sim_socket(int fam, int type, int proto)
{
  enter(false); last_socket[0] = fam; last_socket[1] = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC); last_socket[2] = proto;
  if (knobs.sock_fail && chance(FAULT, knobs.sock_fail, 1000)) { fault("socket_fails"); return leave("socket", fam, -(int) pick(FAULT, {EMFILE, EAFNOSUPPORT, ENOBUFS})); }
  Sock *s = new Sock; s->family = fam; s->nonblock = type & SOCK_NONBLOCK; s->cfg.unix_domain = fam == AF_UNIX;
  return leave("socket", fam, fd_install(s));
}
int sim_socketpair(int, int type, int, int sv[2])
{
  enter(false); Sock *a = new Sock, *b = new Sock; NetCfg c; c.unix_domain = true; c.sndbuf = 212992; sock_pair(a, b, c); a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  sv[0] = fd_install(a); sv[1] = fd_install(b); return leave("socketpair", 0, 0);
}
int sim_pipe2(int p[2], int fl) { enter(false); PipeR *r; PipeW *w; pipe_pair(&r, &w); r->nonblock = w->nonblock = fl & O_NONBLOCK; p[0] = fd_install(r); p[1] = fd_install(w); return leave("pipe", 0, 0); }
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
static std::string addr_key(const struct sockaddr *a, socklen_t)
{
  char b[128];
  if (a->sa_family == AF_INET) snprintf(b, sizeof b, "port:%d", ntohs(((sockaddr_in *) a)->sin_port));
  else if (a->sa_family == AF_INET6) snprintf(b, sizeof b, "port:%d", ntohs(((sockaddr_in6 *) a)->sin6_port));
  else snprintf(b, sizeof b, "unix:%s", ((sockaddr_un *) a)->sun_path);
  return b;
}
}
namespace sim { void register_listener(Listener *l); void fd_replace(int fd, File *f); }
extern "C" {
static long do_bind(int fd, const struct sockaddr *a, socklen_t l)
{
  long e; Sock *s = sock_of(fd, &e); if (!s) return e;
  if (knobs.bind_fail && chance(FAULT, knobs.bind_fail, 1000)) { fault("bind_fails"); return -(int) pick(FAULT, {EADDRINUSE, EACCES, EADDRNOTAVAIL}); }
  std::string k = addr_key(a, l); last_bind.assign((const char *) a, l);
  if (time_wait.count(k) && !reuse_addr.count(s->id)) { return -EADDRINUSE; }
  Listener *o = find_listener(k); if (o && !reuse_port.count(s->id)) return -EADDRINUSE;
  s->addr = k; return 0;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) { enter(false); RET("bind", fd, do_bind(fd, a, l)); }
static long do_listen(int fd, int bl)
{
  long e; Sock *s = sock_of(fd, &e); if (!s) { File *f = fd_get(fd); return f && f->kind == File::LISTEN ? 0 : e; }
  if (knobs.listen_fail && chance(FAULT, knobs.listen_fail, 1000)) { fault("listen_fails"); return -EADDRINUSE; }
  Listener *l = new Listener; l->addr = s->addr; l->nonblock = s->nonblock; last_listen_backlog = bl; l->backlog = bl;
  fd_replace(fd, l); register_listener(l); return 0;
}
int sim_listen(int fd, int bl) { enter(false); RET("listen", fd, do_listen(fd, bl)); }
static long do_accept(int fd, int fl)
{
  File *f = fd_get(fd); if (!f) return -EBADF; if (f->kind != File::LISTEN) return f->kind == File::SOCK ? -EINVAL : -ENOTSOCK;
  Listener *l = (Listener *) f;
  if (l->exhausted) { fault(l->exhausted == EMFILE || l->exhausted == ENFILE ? "accept_no_descriptors" : "accept_no_memory"); return -l->exhausted; }
  if (l->queue.empty())
  {
    if (l->nonblock) return -EAGAIN;
    std::function<bool()> pred = [l] { return !l->queue.empty(); };
    block_until(pred, ~0ull, true, nullptr);
  }
  if (!l->faults.empty())
  {
    int e = l->faults.front(); l->faults.pop_front();
    if (e)
    {
      fault(e == ECONNABORTED ? "accept_econnaborted" : e == EINTR ? "accept_eintr" : e == EPROTO ? "accept_eproto" : "accept_other");
      if (e != EINTR) { Sock *s = l->queue.front(); l->queue.pop_front(); s->aborted = s->orphan = true; if (!s->dead) s->send_rst(); }
      return -e;
    }
  }
  Sock *s = l->queue.front(); l->queue.pop_front(); l->accepted++;
  s->nonblock = fl & SOCK_NONBLOCK;
  int r = fd_install(s);
  if (r < 0) { s->release(); }
  return r;
}
int sim_accept4(int fd, struct sockaddr *, socklen_t *l, int fl) { if (l) *l = 0; enter(true); RET("accept4", fd, do_accept(fd, fl)); }
int sim_accept(int fd, struct sockaddr *, socklen_t *l) { if (l) *l = 0; enter(true); RET("accept", fd, do_accept(fd, 0)); }
static long do_connect(int fd, const struct sockaddr *a, socklen_t l)
{
  long e; Sock *s = sock_of(fd, &e); if (!s) return e;
  if (s->connected) return -EISCONN;
  if (s->connecting) return -EALREADY;
  std::string k = addr_key(a, l); last_connect.assign((const char *) a, l);
  if (knobs.connect_fail && chance(FAULT, knobs.connect_fail, 1000)) { fault("connect_fails"); return -(int) pick(FAULT, {ENETUNREACH, ECONNREFUSED, EADDRNOTAVAIL}); }
  s->connecting = true;
  int how = connect_hook ? connect_hook(s, k) : 0;       // 0 default, else handled by the harness
  if (!how)
  {
    NetCfg c = random_net(); u64 d = between(NET, c.lat_lo, c.lat_hi);
    after(d, [s, k, c] {
      if (s->orphan) return;
      Listener *l = find_listener(k);
      if (!l || !l->listening) { fault("connect_refused"); s->fail(ECONNREFUSED); return; }
      Sock *srv = new Sock; sock_pair(s, srv, c); s->connecting = false;
      l->queue.push_back(srv); l->wake(EPOLLIN | EPOLLRDNORM); s->wake(0);
    });
  }
  if (s->nonblock) return -EINPROGRESS;
  std::function<bool()> pred = [s] { return !s->connecting; };
  block_until(pred, ~0ull, true, nullptr);
  if (s->err) { int x = s->err; s->err = 0; return -x; }
  return 0;
}
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) { enter(true); RET("connect", fd, do_connect(fd, a, l)); }
int sim_shutdown(int fd, int how) { enter(false); long e; Sock *s = sock_of(fd, &e); if (s) { if (!s->connected) e = -ENOTCONN; else { s->shutdown(how); e = 0; } } RET("shutdown", fd, e); }
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t)
{
  enter(false); File *f = fd_get(fd); if (!f) return leave("setsockopt", fd, -EBADF);
  if (f->kind != File::SOCK && f->kind != File::LISTEN) return leave("setsockopt", fd, -ENOTSOCK);
  if (knobs.setsockopt_fail && chance(FAULT, knobs.setsockopt_fail, 1000)) { fault("setsockopt_fails"); return leave("setsockopt", fd, -ENOPROTOOPT); }
  if (lvl == SOL_SOCKET && opt == SO_REUSEADDR && *(int *) v) reuse_addr.insert(f->id);
  if (lvl == SOL_SOCKET && opt == SO_REUSEPORT && *(int *) v) reuse_port.insert(f->id);
  return leave("setsockopt", fd, 0);
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l)
{
  enter(false); long e; Sock *s = sock_of(fd, &e); if (!s) return leave("getsockopt", fd, e);
  int x = 0; if (lvl == SOL_SOCKET && opt == SO_ERROR) { x = s->err; s->err = 0; } else if (lvl == SOL_SOCKET && opt == SO_TYPE) x = SOCK_STREAM;
  if (*l >= sizeof x) { memcpy(v, &x, sizeof x); *l = sizeof x; } return leave("getsockopt", fd, 0);
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { enter(false); File *f = fd_get(fd); if (!f) return leave("getsockname", fd, -EBADF); memset(a, 0, *l); a->sa_family = AF_INET; return leave("getsockname", fd, 0); }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { return sim_getsockname(fd, a, l); }
int sim_getaddrinfo(const char *node, const char *serv, const struct addrinfo *hints, struct addrinfo **res)
{
  enter(true);
  int r = resolve_hook ? resolve_hook(node, serv, hints, res) : EAI_NONAME;
  leave("getaddrinfo", 0, r == 0 ? 0 : 1); return r;
}
void sim_freeaddrinfo(struct addrinfo *a) { Kernel k; addrinfo_release(a); }

// ---- time
int sim_clock_gettime(clockid_t c, struct timespec *t) { enter(false); u64 n = clock_ns(c); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; leave("clock_gettime", c, 0); return 0; }
int sim_gettimeofday(struct timeval *t, void *) { enter(false); u64 n = realtime(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; leave("gettimeofday", 0, 0); return 0; }
time_t sim_time(time_t *p) { enter(false); time_t t = realtime() / 1000000000; if (p) *p = t; leave("time", 0, t); return t; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { enter(true); sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec, true); return leave("nanosleep", 0, 0); }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *r) { return sim_nanosleep(t, r); }
int sim_usleep(useconds_t u) { enter(true); sleep_ns(u * 1000ull, true); return leave("usleep", 0, 0); }
unsigned sim_sleep(unsigned s) { enter(true); sleep_ns(s * 1000000000ull, true); return leave("sleep", 0, 0); }
int sim_sched_yield(void) { enter(false); return 0; }
// the C library keeps one result for all threads
static struct tm shared_tm_buf; static int shared_tm_writer = -1;
static struct tm *shared_tm(time_t t, bool local)
{
  struct tm &r = shared_tm_buf, n; shared_tm_writer = cur_id(); if (local) localtime_r(&t, &n); else gmtime_r(&t, &n);
  r.tm_year = n.tm_year; r.tm_mon = n.tm_mon; r.tm_mday = n.tm_mday; yield_point(); r.tm_hour = n.tm_hour; r.tm_min = n.tm_min; yield_point(); r = n; return &r;
}
struct tm *sim_gmtime(const time_t *t) { enter(false); return shared_tm(*t, false); }
struct tm *sim_localtime(const time_t *t) { enter(false); return shared_tm(*t, true); }
bool foreign_locale = false;
size_t sim_strftime(char *s, size_t m, const char *f, const struct tm *tm)
{
  enter(false);
  if (tm == &shared_tm_buf && shared_tm_writer != cur_id()) violation("shared-time", "thread %d formats the broken down time that thread %d has put into the buffer they share", cur_id(), shared_tm_writer);
  // the process may have chosen another language
  std::string g = f; if (foreign_locale) { g.clear(); for (const char *p = f; *p; p++) { if (*p != '%' || !p[1]) { g += *p; continue; } const char *q = p + 1; while ((*q == 'E' || *q == 'O' || *q == '-' || *q == '_' || *q == '^') && q[1]) q++; switch (*q) { case 'a': g += "l\xc3\xb6r"; break; case 'A': g += "l\xc3\xb6rdag"; break; case 'b': case 'h': g += "maj"; break; case 'B': g += "augusti"; break; case 'c': g += "l\xc3\xb6r  4 maj 2024 %H:%M:%S"; break; case 'p': break; case 'x': g += "%Y-%m-%d"; break; default: g.append(p, q + 1 - p); } p = q; } }
  acc(s); size_t n = strftime(s, m, g.c_str(), tm); acc(s); yield_point(); return n; }

// ---- signals
SigH sim_signal(int s, SigH h) { enter(false); SigH o = handlers[s]; handlers[s] = h; if (s == SIGPIPE) sigpipe_ignored = h != SIG_DFL; leave("signal", s, 0); return o; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
  enter(false); if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[s]; }
  if (a) { handlers[s] = a->sa_handler; if (s == SIGPIPE) sigpipe_ignored = a->sa_handler != SIG_DFL; } return leave("sigaction", s, 0);
}
int sim_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int sim_pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int sim_raise(int s) { raise_signal(s); deliver_signals(); return 0; }

// ---- verdicts
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { violation("abort", "the process aborts: assertion \"%s\" failed at %s:%u", e, strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l); }
void sim_abort(void) { violation("abort", "the process aborts"); }
void sim_exit(int c) { violation("exit", "the library exits the process (status %d)", c); }
void sim__exit(int c) { violation("exit", "the library exits the process (status %d)", c); }

// ---- heap
static void *track(void *p, size_t n) { if (p && active) { Kernel k; blocks[p] = n; bytes += n; } return p; }
static void untrack(void *p) { if (!p || !active) return; Kernel k; auto i = blocks.find(p); if (i != blocks.end()) { bytes -= i->second; blocks.erase(i); } }
void *sim_malloc(size_t n) { return track(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return track(calloc(a, b), a * b); }
void sim_free(void *p) { untrack(p); free(p); }
void *sim_realloc(void *p, size_t n)
{
  if (!p) return sim_malloc(n);
  if (!n) { sim_free(p); return nullptr; }
  size_t old; { Kernel k; auto i = blocks.find(p); if (i == blocks.end()) { old = 0; } else old = i->second; }
  if (!old) { void *q = realloc(p, n); return track(q, n); }
  void *q = sim_malloc(n); if (!q) return q;
  memcpy(q, p, old < n ? old : n); sim_free(p);       // always moves
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) sim_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int sim_posix_memalign(void **o, size_t a, size_t n) { int e = posix_memalign(o, a, n); if (!e) track(*o, n); return e; }
void *sim_aligned_alloc(size_t a, size_t n) { return track(aligned_alloc(a, n), n); }

SSL *sim_SSL_new(SSL_CTX *c) { SSL *s = SSL_new(c); if (s) ssl_live++; return s; }
void sim_SSL_free(SSL *s) { if (s) { if (!ssl_live) violation("ssl-double-free", "a TLS object is released more often than created"); ssl_live--; } SSL_free(s); }

SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *m) { SSL_CTX *c = SSL_CTX_new(m); if (c) ctx_live++; return c; }
int sim_SSL_CTX_up_ref(SSL_CTX *c) { int e = SSL_CTX_up_ref(c); if (e == 1) ctx_live++; return e; }
void sim_SSL_CTX_free(SSL_CTX *c) { if (c) { if (!ctx_live) violation("ssl-double-free", "a TLS context is released more often than created"); ctx_live--; } SSL_CTX_free(c); }

// ---- threads
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  enter(false);
  int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds);
  Task *k = lib_thread(fn, arg, ds == PTHREAD_CREATE_DETACHED); *t = (pthread_t) k;
  leave("pthread_create", 0, 0);
  if (active && !in_kernel) yield_point();
  return 0;
}
int sim_pthread_join(pthread_t t, void **r) { enter(true); Task *k = (Task *) t; lib_check_handle(k, "pthread_join"); if (lib_is_detached(k)) violation("thread-handle", "pthread_join on a detached thread"); join(k); if (r) *r = lib_retval(k); leave("pthread_join", 0, 0); return 0; }
int sim_pthread_tryjoin_np(pthread_t t, void **r) { enter(false); Task *k = (Task *) t; lib_check_handle(k, "pthread_tryjoin_np"); if (!task_done(k)) return EBUSY; join(k); if (r) *r = lib_retval(k); return 0; }
int sim_pthread_detach(pthread_t t) { enter(false); Task *k = (Task *) t; lib_check_handle(k, "pthread_detach"); lib_detach(k); leave("pthread_detach", 0, 0); return 0; }
int sim_pthread_cancel(pthread_t t) { enter(false); Task *k = (Task *) t; lib_check_handle(k, "pthread_cancel"); lib_cancel(k); leave("pthread_cancel", 0, 0); return 0; }
int sim_pthread_kill(pthread_t t, int) { lib_check_handle((Task *) t, "pthread_kill"); return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t) cur; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_testcancel(void) { enter(true); }
int sim_pthread_setcancelstate(int s, int *o) { bool old; lib_cancel_enable(s == PTHREAD_CANCEL_ENABLE, &old); if (o) *o = old ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; return 0; }
int sim_pthread_setcanceltype(int, int *o) { if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
struct Mx { Task *owner = nullptr; int depth = 0; };
static std::map<void *, Mx> mutexes;
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mutexes[m] = Mx(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mutexes.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
  enter(false); std::function<bool()> p = [m] { return !mutexes[m].owner; };
  block_until(p, ~0ull, false, nullptr); mutexes[m].owner = cur; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { enter(false); if (mutexes[m].owner) return EBUSY; mutexes[m].owner = cur; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { mutexes[m].owner = nullptr; enter(false); return 0; }
struct Cv { u64 sig = 0, wait = 0; };
static std::map<void *, Cv> cvs;
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { cvs[c] = Cv(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { cvs.erase(c); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 dl)
{
  u64 ticket = cvs[c].wait++; mutexes[m].owner = nullptr;
  std::function<bool()> p = [c, ticket] { return cvs[c].sig > ticket; };
  bool ok = block_until(p, dl, true, nullptr); if (!ok && cvs[c].sig <= ticket) cvs[c].sig++;
  sim_pthread_mutex_lock(m); return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { enter(true); return cond_wait(c, m, ~0ull); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { enter(true); u64 a = t->tv_sec * 1000000000ull + t->tv_nsec, n = realtime(); return cond_wait(c, m, a > n ? mono + (a - n) : mono); }
int sim_pthread_cond_signal(pthread_cond_t *c) { if (cvs[c].sig < cvs[c].wait) cvs[c].sig++; enter(false); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { cvs[c].sig = cvs[c].wait; enter(false); return 0; }

// ---- coverage of library code
static uint8_t *cov_map; static u32 cov_n;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *p = a; p < b; p++) *p = ++cov_n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (!sim::active) return; if (cov_map) cov_map[*g] = 1; sim::on_edge(); }

// every memory access of library code is a point where another thread may run
#define ACC(n) void __sanitizer_cov_load##n(void *p) { acc(p); } void __sanitizer_cov_store##n(void *p) { acc(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
// copies of library code, in two pieces where they involve something shared
#define COPY(f, q) void *sim_##f(void *d, q s, size_t n) { acc(d); if (sim::active && sim::many && n > 1 && (sim::is_shared(d) || shared_source(s))) { size_t h = n / 2; copy_piece(f, d, s, 0, h); sim::on_shared(); copy_piece(f, d, s, h, n - h); sim::on_shared(); return d; } return f(d, s, n); }
COPY(memcpy, const void *) COPY(memset, int)
void *sim_memmove(void *d, const void *s, size_t n) { acc(d); acc(s); void *r = memmove(d, s, n); acc(d); return r; }

// ---- OpenSSL's own calls
ssize_t read(int fd, void *p, size_t n) { if (!sim::active || fd < 3) return syscall(SYS_read, fd, p, n); return sim_read(fd, p, n); }
ssize_t write(int fd, const void *p, size_t n) { if (!sim::active || fd < 3) return syscall(SYS_write, fd, p, n); return sim_write(fd, p, n); }
time_t time(time_t *p) { if (sim::active) { time_t t = realtime() / 1000000000; if (p) *p = t; return t; } struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *t, void *) { u64 n; if (sim::active) n = realtime(); else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); n = ts.tv_sec * 1000000000ull + ts.tv_nsec; } t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { if (sim::active) { u64 n = clock_ns(c); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; } return syscall(SYS_clock_gettime, c, t); }
}
namespace sim { void cov_set(uint8_t *m) { cov_map = m; } u32 cov_count() { return cov_n; } }
