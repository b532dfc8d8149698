// Helpers shared by the scenarios. Library code is only reached through its public header.
#pragma once
#include "kernel.h"
#include "reactor.h"
#include <openssl/ssl.h>
#include <cerrno>
#include <unistd.h>
#include <csignal>

extern "C" {   // simulated calls used by scenario code itself
int sim_close(int); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); int sim_usleep(unsigned);
}
namespace sim {
extern bool active;
extern std::function<int(Sock *, const std::string &)> connect_hook;
extern "C" { extern bool foreign_locale; extern int last_socket[3]; extern std::string last_bind, last_connect; }  extern std::set<std::string> time_wait; extern int last_listen_backlog;
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// environment knobs: fault-free in a share of the runs
void random_env(bool allow_stall = true);
bool step();                                   // one loop iteration; false when it ended by idleness
void quiesce(u64 max_iters = 200000);          // until nothing is left to do but background timers
void settle(u64 ns);                           // run the loop for a while of simulated time
uint8_t pat(u64 stream, u64 off);              // payload byte
void fill(std::string &s, u64 stream, u64 off, size_t n);
extern SSL_CTX *tls_server_ctx, *tls_client_ctx; SSL_CTX *tls_srv(u32 variant); SSL_CTX *tls_cli(u32 variant); extern const char *tls_pem[4];   // certificate, key, and another pair

// reference parser of message heads: bytes consumed, -1 malformed, -2 incomplete
struct RefHead { ssize_t n = -2; int code = 0; std::string method, target; std::vector<std::pair<std::string, std::string>> f; };
RefHead ref_head(bool response, const std::string &bytes, size_t max_fields);
std::string damage(std::string s, u32 n);      // n random edits of a head

// bytes waiting to be sent; taking from the front does not move the rest
struct ByteQ { std::string b; size_t o = 0;
  const char *data() const { return b.data() + o; } size_t size() const { return b.size() - o; } bool empty() const { return o == b.size(); } void clear() { b.clear(); o = 0; }
  void operator+=(const std::string &d) { b += d; } void take(size_t n) { o += n; if (o == b.size()) clear(); else if (o > 65536 && o > b.size() / 2) { b.erase(0, o); o = 0; } } };

// harness side of a connection, plain or TLS, with queues and pacing
struct Wire {
  Sock *s = nullptr; SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr; bool tls = false, tls_server = false;
  ByteQ outq, raw;                       // application bytes to send; encrypted bytes to send
  std::string in;                              // application bytes received
  u64 raw_in = 0;
  bool eof = false, reset = false, tls_fail = false, tls_closed = false, closed = false, paused = false, garbage = false;
  u64 read_limit = ~0ull;                      // bytes per turn
  u64 read_delay = 0;                          // pause between turns
  bool turn_pending = false; bool half_close_after = false; bool close_after = false;
  std::function<void()> on_data;
  void attach(Sock *sock, bool use_tls = false, bool as_server = false, u32 variant = 0);
  void send(const std::string &d);             // queue and try
  void pump();                                 // called on events
  void close(); void reset_now(); void half_close(); void set_paused(bool p); void destroy();
  ~Wire();
private:
  void flush(); void turn();
};
}
