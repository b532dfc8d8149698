// Simulated kernel objects and the harness's side of them.
#pragma once
#include "sim.h"
#include <sys/epoll.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <netdb.h>

namespace sim {

struct Epoll; struct File;

struct Epitem { Epoll *ep; File *file; int fd; u32 events; u64 data; bool ready; bool disabled; };

struct File {
  enum Kind { SOCK, LISTEN, PIPER, PIPEW, EVENTFD, TIMERFD, INOTIFY, EPOLL, REG, REAL };
  Kind kind; int refs = 0; bool nonblock = false; u64 id; std::vector<Epitem *> watchers;
  int oflags = 0;
  File(Kind k);
  virtual ~File() {}
  virtual u32 poll() { return 0; }
  virtual ssize_t read(void *, size_t) { return -22; }        // negative errno
  virtual ssize_t write(const void *, size_t) { return -22; }
  virtual void release() {}                                   // last reference gone
  virtual void wake(u32 key);
};

// fd table
int   fd_install(File *f, int min = 3);         // lowest free
File *fd_get(int fd);
int   fd_close(int fd);                         // 0 or negative errno
size_t fd_count();                              // open virtual descriptors of the process
std::string fd_list();
extern std::vector<int> fd_closed_log;          // descriptor numbers closed, in order (cleared by the harness)

// ---- stream sockets
struct NetCfg {
  u32 sndbuf = 1 << 20, rcvbuf = 1 << 20;       // per side send buffer; receive window
  u64 lat_lo = 0, lat_hi = 0;                   // per segment latency
  u32 seg = 0;                                  // 0: whole; else segments of 1..seg bytes
  u64 ack_delay = 0;
  bool unix_domain = false;
};
NetCfg random_net(bool allow_unix = false);     // drawn from NET

struct Dir {                                    // one direction; absolute byte counters
  std::vector<uint8_t> buf; u64 base = 0;       // buf[0] is byte number base
  u64 W = 0, S = 0, D = 0, A = 0, R = 0;        // written, sent, delivered, acked, read
  bool fin_queued = false, fin_sent = false, fin_delivered = false; u64 last_delivery = 0;
  std::deque<std::pair<u64, u64>> skbs; u64 charged = 0;   // unix: (end offset, charge) still charged to the sender
};

struct Listener;
struct Sock : File {
  NetCfg cfg; Sock *peer = nullptr; bool connected = false, connecting = false;
  Dir out;                                      // data this socket sends
  bool shut_rd = false, shut_wr = false, dead = false /* TCP_CLOSE after life */, done = false, orphan = false;
  bool fin_rcvd = false;
  int err = 0; bool nospace = false;
  bool rst_out = false;                         // this side sent a RST
  u64 lost_out = 0;                             // bytes this side accepted and then discarded
  bool aborted = false;                         // lost in the accept queue
  bool is_peer = false;                         // harness owned, not in the fd table
  std::function<void()> on_event; bool event_pending = false;
  int family = 2; std::string addr;
  Sock() : File(SOCK) {}
  u32 poll() override;
  ssize_t read(void *, size_t) override;
  ssize_t write(const void *, size_t) override;
  ssize_t do_read(void *, size_t, bool peek);
  ssize_t do_write(const void *, size_t, bool nosignal);
  void release() override;
  void wake(u32 key) override;
  void shutdown(int how);
  size_t readable() { return peer_dir ? peer_dir->D - peer_dir->R : 0; }
  // internals
  Dir *peer_dir = nullptr;                      // data this socket receives (peer->out), stays valid after peer closes
  void pump(); void deliver(u64 upto); void deliver_fin(); void ack(); void write_space(); bool writable(); void maybe_fin();
  void reset_from_peer(); void send_rst(); void fail(int e);
};
void sock_pair(Sock *a, Sock *b, const NetCfg &c, bool established = true);
// harness side
struct Peer;
Sock *new_peer_pair(const NetCfg &c, int *fd_out);          // returns harness end; *fd_out = library end (non-blocking)
size_t peer_send(Sock *s, const void *p, size_t n);         // accepted bytes
size_t peer_recv(Sock *s, void *p, size_t n);               // bytes now (0 = none)
bool  peer_eof(Sock *s);                                    // orderly end seen and everything read
bool  peer_dead(Sock *s);                                   // reset or failed
void  peer_shutdown(Sock *s);                               // half close
void  peer_close(Sock *s);                                  // close (RST if unread data)
void  peer_reset(Sock *s);                                  // abortive close
void  conn_timeout(Sock *libside);                          // ETIMEDOUT on the library side, peer vanishes

// ---- pipes
struct PipeBuf { std::deque<std::vector<uint8_t>> pages; std::deque<size_t> offs; size_t slots = 16; size_t page = 4096; int readers = 0, writers = 0;
  struct PipeR *r = nullptr; struct PipeW *w = nullptr; size_t size(); };
struct PipeR : File { std::shared_ptr<PipeBuf> b; PipeR(); u32 poll() override; ssize_t read(void *, size_t) override; void release() override; };
struct PipeW : File { std::shared_ptr<PipeBuf> b; PipeW(); u32 poll() override; ssize_t write(const void *, size_t) override; void release() override; };
void pipe_pair(PipeR **r, PipeW **w, size_t slots = 16, size_t page = 4096);

// ---- listening
struct Listener : File {
  std::deque<Sock *> queue; std::string addr; int backlog = 1 << 30; bool listening = true; NetCfg cfg;
  std::deque<int> faults;                       // errno to return by the next accepts (0: none)
  int exhausted = 0;                            // errno of every accept while the process is out of descriptors or memory
  u64 accepted = 0;
  Listener() : File(LISTEN) {}
  u32 poll() override; void release() override;
};
Listener *new_listener(int *fd_out, const std::string &addr = "");
Listener *find_listener(const std::string &addr);
Sock *peer_connect(Listener *l, const NetCfg &c);           // harness client; connection is queued now; null if closed

// ---- others
struct EventFd : File { u64 count; bool sem; EventFd(u64 c, bool s) : File(EVENTFD), count(c), sem(s) {} u32 poll() override; ssize_t read(void *, size_t) override; ssize_t write(const void *, size_t) override; };
struct TimerFd : File { int clock; u64 ticks = 0; bool armed = false, expired = false; u64 due = 0, interval = 0; u64 ev = 0; bool abs_real = false;
  TimerFd(); u32 poll() override; ssize_t read(void *, size_t) override; void release() override; void arm(u64 v, u64 i); void fire(); };
void step_clock(int64_t delta);                             // wall clock jumps
struct INode;
extern int fd_floor, fd_room, wd_first;
struct Inotify : File {
  struct Ev { int wd; u32 mask, cookie; std::string name; };
  std::deque<Ev> q; size_t max_queued = 16384; int next_wd = wd_first; bool overflowed = false;
  std::map<int, std::pair<std::string, u32>> wds;          // wd -> (path, mask)
  std::function<void(const Ev &)> on_queued;                // harness: event really queued (after coalescing)
  Inotify() : File(INOTIFY) {} u32 poll() override; ssize_t read(void *, size_t) override; void release() override;
  bool queue(int wd, u32 mask, u32 cookie, const std::string &name);
};
extern std::vector<Inotify *> inotifies;
// virtual files
struct INode { std::vector<uint8_t> data; bool dir = false; std::function<long(int)> open_special; };
extern std::map<std::string, std::shared_ptr<INode>> vfs;   // absolute paths below /sim
extern std::set<std::string> vfs_links;   // those that are symbolic links
struct RegFile : File { std::shared_ptr<INode> n; u64 pos = 0; bool rd, wr, append; RegFile() : File(REG) {} u32 poll() override; ssize_t read(void *, size_t) override; ssize_t write(const void *, size_t) override; };
struct FileFaults { bool short_reads = false, short_writes = false; u64 fail_after = ~0ull; int fail_errno = 0; };
extern FileFaults file_faults;
void fs_event(const std::string &path, u32 mask, const std::string &name = "", u32 cookie = 0); // event on a watched path

struct Epoll : File {
  std::map<std::pair<int, File *>, Epitem *> items; std::deque<Epitem *> ready;
  Epoll() : File(EPOLL) {} u32 poll() override; void release() override;
  void push(Epitem *);
  int collect(epoll_event *, int max);
};
extern u64 epoll_waits, epoll_blocks;           // number of waits / waits that really blocked
extern std::function<void(int n, const epoll_event *ev)> on_epoll_return;   // harness observer
extern std::function<void()> on_epoll_enter;

// ---- resolver script
struct AddrScript { int err; u64 delay; int n; };
extern std::function<int(const char *node, const char *service, const addrinfo *hints, addrinfo **res)> resolve_hook;
addrinfo *make_addrinfo(int family, int type, int flags, u32 port, const char *ip, int n = 1);
extern u64 addrinfo_live, addrinfo_made;
void addrinfo_release(addrinfo *);

// ---- library resources
size_t lib_blocks();                            // live heap blocks allocated by the library
size_t lib_bytes();
std::string lib_blocks_list();
extern u64 ssl_live, ctx_live;
extern bool sigpipe_ignored;

// fault knobs, consulted by the interposers (probability in 1/1000, drawn from FAULT)
struct Knobs { u32 eintr = 0, stall = 0; u64 stall_max = 0; u64 cost = 200;
  u32 sock_fail = 0, bind_fail = 0, listen_fail = 0, setsockopt_fail = 0, connect_fail = 0, short_xfer = 0 /* blocking writes that a signal cuts short */; };
extern Knobs knobs;
void fd_reset();
}
