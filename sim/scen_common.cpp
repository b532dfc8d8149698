#include "scen.h"
#include "internal.h"
#include <cstdarg>
#include <openssl/pem.h>
#include <openssl/err.h>

namespace sim {
void sample(const char *fmt, ...)
{
  size_t n = strlen(sh->sample); va_list ap; va_start(ap, fmt); vsnprintf(sh->sample + n, sizeof sh->sample - n, fmt, ap); va_end(ap);
}
void random_env(bool allow_stall)
{
  u32 m = choose(CFG, 4);
  // wall clock at start: an ordinary one, shortly before a boundary of the calendar, or any
  static const u32 dates[] = {1704067199, 951782399, 1709164799, 1709251199, 2147483647, 4102444799u, 1693526399, 1704805199, 86399, 1767225599, 1711929594};
  u32 dk = choose(CFG, 4); int64_t base = dk < 2 ? 1700000000 : dk == 2 ? dates[choose(CFG, 11)] - (int64_t) choose(CFG, 4) : 86400ll * choose(CFG, 47000) + choose(CFG, 86400);
  if (base < 200000) base += 200000;
  real_off = base * 1000000000ll - (int64_t) mono + (int64_t) choose(CFG, 1000000000);
  knobs.cost = pick(CFG, {200, 0, 1000, 20000}); foreign_locale = choose(CFG, 2);
  u32 fk = choose(CFG, 12); fd_floor = fk == 11 ? 70000 : fk == 10 ? 1020 + choose(CFG, 5) : fk == 9 ? 250 : 3;    // a process that has many descriptors open
  u32 wk = choose(CFG, 8); wd_first = wk == 7 ? 0x7fff0000 : wk == 6 ? 65530 : wk == 5 ? 32760 : wk == 4 ? 250 : 1;   // an instance that has seen many watches
  if (m == 0) return;                          // fault-free environment
  if (choose(CFG, 2)) knobs.eintr = pick(CFG, {20, 100, 300});
  if (allow_stall && choose(CFG, 2)) { knobs.stall = pick(CFG, {5, 30, 150}); knobs.stall_max = pick(CFG, {1000, 100000, 5000000, 300000000}); }
}
bool step() { u64 h = idle_hits; reactor_loop_once(); progress(); return idle_hits == h; }
void quiesce(u64 max)
{
  bool s = stop_at_background; stop_at_background = true; u64 n = 0;
  while (step()) CHECK(++n <= max, "spin", "the loop keeps running without anything left to do (%llu iterations)", (unsigned long long) n);
  stop_at_background = s;
}
void settle(u64 ns)
{
  u64 end = mono + ns; bool hit = false;
  at(end, [&hit] { hit = true; poke_main(); });
  u64 n = 0;
  while (!hit) { reactor_loop_once(); progress(); CHECK(++n <= 1000000, "spin", "the loop spins"); }
}
uint8_t pat(u64 st, u64 off) { u64 x = (off ^ (st * 0x9E3779B97F4A7C15ull)) + (off >> 13) * 0x632BE5AB; x ^= x >> 15; x *= 0x85EBCA6B; x ^= x >> 13; return x; }
void fill(std::string &s, u64 st, u64 off, size_t n) { s.resize(n); for (size_t i = 0; i < n; i++) s[i] = pat(st, off + i); }

SSL_CTX *tls_server_ctx, *tls_client_ctx;
static SSL_CTX *srv[4], *cli[4];
SSL_CTX *tls_srv(u32 v) { return srv[v % 4]; }
SSL_CTX *tls_cli(u32 v) { return cli[v % 4]; }
#include "cert.inc"
const char *tls_pem[4] = {tls_cert_pem, tls_key_pem, tls_cert2_pem, tls_key2_pem};
void tls_init()
{
  for (int i = 0; i < 4; i++)
  {
    SSL_CTX *c = SSL_CTX_new(TLS_server_method());
    BIO *b = BIO_new_mem_buf(tls_cert_pem, -1); X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr); BIO_free(b);
    b = BIO_new_mem_buf(tls_key_pem, -1); EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b);
    if (!x || !k || SSL_CTX_use_certificate(c, x) != 1 || SSL_CTX_use_PrivateKey(c, k) != 1) { fprintf(stderr, "certificate\n"); exit(3); }
    X509_free(x); EVP_PKEY_free(k);
    SSL_CTX *d = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(d, SSL_VERIFY_NONE, nullptr);
    int ver = i & 1 ? TLS1_2_VERSION : TLS1_3_VERSION;
    SSL_CTX_set_min_proto_version(c, ver); SSL_CTX_set_max_proto_version(c, ver);
    SSL_CTX_set_min_proto_version(d, TLS1_2_VERSION); SSL_CTX_set_max_proto_version(d, TLS1_3_VERSION);
    SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF); SSL_CTX_set_session_cache_mode(d, SSL_SESS_CACHE_OFF);
    if (i & 2) { SSL_CTX_set_num_tickets(c, 0); }
    srv[i] = c; cli[i] = d;
  }
  tls_server_ctx = srv[0]; tls_client_ctx = cli[0];
  // warm up: one handshake in memory, so that forked runs share the initialised state
  SSL *a = SSL_new(srv[0]), *b = SSL_new(cli[0]); BIO *x, *y; BIO_new_bio_pair(&x, 0, &y, 0);
  SSL_set_bio(a, x, x); SSL_set_bio(b, y, y); SSL_set_accept_state(a); SSL_set_connect_state(b);
  for (int i = 0; i < 10; i++) { SSL_do_handshake(b); SSL_do_handshake(a); }
  SSL_free(a); SSL_free(b); ERR_clear_error();
}

// The library under test and the simulated peers share one thread and thus OpenSSL's error queue:
// whatever the library left in it is put aside while a peer runs and put back afterwards.
struct ErrGuard {
  struct E { unsigned long code; int line, flags; std::string file, func, data; };
  std::vector<E> saved;
  ErrGuard()
  {
    const char *f, *fn, *d; int l, fl; unsigned long c;
    while ((c = ERR_get_error_all(&f, &l, &fn, &d, &fl))) saved.push_back({c, l, fl, f ? f : "", fn ? fn : "", d ? d : ""});
  }
  ~ErrGuard()
  {
    ERR_clear_error();
    for (auto &e : saved) { ERR_new(); ERR_set_debug("lib", e.line, "lib"); ERR_set_error(ERR_GET_LIB(e.code), ERR_GET_REASON(e.code), nullptr); }
  }
};

// ---------------------------------------------------------------- Wire
void Wire::attach(Sock *sock, bool use_tls, bool as_server, u32 variant)
{
  s = sock; tls = use_tls; tls_server = as_server;
  if (tls)
  {
    ssl = SSL_new(as_server ? tls_srv(variant) : tls_cli(variant)); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl, rb, wb);
    SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    if (as_server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
  }
  s->on_event = [this] { pump(); };
  at(mono, [this] { pump(); });
}
void Wire::destroy() { if (s) s->on_event = nullptr; closed = true; if (ssl) { SSL_free(ssl); ssl = nullptr; } }
Wire::~Wire() { destroy(); }
void Wire::send(const std::string &d) { outq += d; pump(); }
void Wire::set_paused(bool p) { paused = p; if (!p) { at(mono, [this] { pump(); }); } }
void Wire::turn()
{
  // take bytes from the socket
  if (closed || paused) return;
  static char buf[65536];
  u64 left = read_limit; size_t n;
  while (left && (n = peer_recv(s, buf, std::min<u64>(left, sizeof buf))) > 0)
  {
    left -= std::min<u64>(left, n); raw_in += n;
    if (tls && !garbage) BIO_write(rb, buf, n); else if (!tls) in.append(buf, n);
  }
  if (read_limit != ~0ull && s->readable() && !turn_pending)
  {
    turn_pending = true;
    after(read_delay, [this] { turn_pending = false; pump(); });
  }
  if (peer_eof(s)) eof = true;
  if (peer_dead(s) && !s->readable()) reset = true;
}
void Wire::flush()
{
  if (closed) return;
  if (tls && !garbage)
  {
    if (ssl && !tls_fail)
    {
      ErrGuard guard;
      static char buf[32768];
      int n;
      while ((n = SSL_read(ssl, buf, sizeof buf)) > 0) in.append(buf, n);
      int e = SSL_get_error(ssl, n);
      if (e == SSL_ERROR_SSL || (e == SSL_ERROR_SYSCALL)) { if (!eof) tls_fail = true; }
      if (e == SSL_ERROR_ZERO_RETURN) tls_closed = true;
      if (!tls_fail && !SSL_in_init(ssl))
        while (!outq.empty())
        {
          n = SSL_write(ssl, outq.data(), outq.size() > 16000 ? 16000 : outq.size());
          if (n <= 0) break;
          outq.take(n);
        }
    }
    size_t pend = BIO_ctrl_pending(wb);
    if (pend) { std::string t(pend, 0); int k = BIO_read(wb, &t[0], pend); if (k > 0) raw += t.substr(0, k); }
  }
  else { raw += std::string(outq.data(), outq.size()); outq.clear(); }
  while (!raw.empty()) { size_t k = peer_send(s, raw.data(), raw.size()); if (!k) break; raw.take(k); }
  if (raw.empty() && outq.empty())
  {
    if (close_after) { close(); return; }
    if (half_close_after) { half_close_after = false; peer_shutdown(s); }
  }
}
void Wire::pump()
{
  if (closed || !s) return;
  Kernel k;
  turn(); flush();
  if (on_data && !closed) on_data();
}
void Wire::close() { if (closed) return; Kernel k; turn(); closed = true; peer_close(s); }
void Wire::half_close() { half_close_after = true; pump(); }
void Wire::reset_now() { if (closed) return; Kernel k; closed = true; peer_reset(s); }

// ------------------------------------------------------------------ reference grammar of message heads
namespace {
struct Cut {}; struct Wrong {};
struct Rd {
  const std::string &s; size_t i = 0;
  unsigned char at() { if (i >= s.size()) throw Cut(); return s[i]; }
  unsigned char next() { unsigned char c = at(); i++; return c; }
  size_t left() { return s.size() - i; }
  static bool ctl(unsigned char c) { return c < 32 || c == 127; }
  bool eol() { if (at() == '\r') { i++; if (next() != '\n') throw Wrong(); return true; } if (at() == '\n') { i++; return true; } return false; }
  void spaces() { while (at() == ' ') i++; }
  std::string visible() { std::string o; while (at() != ' ') { if (ctl(at())) throw Wrong(); o += (char) next(); } return o; }
  std::string line() { std::string o; while (!ctl(at()) || at() == '\t') o += (char) next(); if (!eol()) throw Wrong(); return o; }
  void version() { if (left() < 9) throw Cut(); if (s.compare(i, 7, "HTTP/1.")) throw Wrong(); i += 7; if (!isdigit(next())) throw Wrong(); }
};
bool tchar(unsigned char c) { return c < 128 && (isalnum(c) || (c && strchr("!#$%&'*+-.^_`|~", c))); }
}
RefHead ref_head(bool response, const std::string &bytes, size_t max_fields)
{
  RefHead h; Rd r{bytes};
  try
  {
    if (response)
    {
      r.version(); if (r.at() != ' ') throw Wrong();
      r.spaces(); if (r.left() < 4) throw Cut();
      for (int k = 0; k < 3; k++) { unsigned char c = r.next(); if (!isdigit(c)) throw Wrong(); h.code = h.code * 10 + c - '0'; }
      std::string m = r.line(); if (!m.empty() && m[0] != ' ') throw Wrong();
      size_t k = m.find_first_not_of(' '); h.target = k == std::string::npos ? "" : m.substr(k);
    }
    else
    {
      r.eol(); h.method = r.visible(); r.spaces(); h.target = r.visible(); r.spaces(); if (h.method.empty() || h.target.empty()) throw Wrong();
      r.version(); if (!r.eol()) throw Wrong();
    }
    while (!r.eol())
    {
      if (h.f.size() == max_fields) throw Wrong();
      std::string n;
      if (h.f.empty() || (r.at() != ' ' && r.at() != '\t'))
      {
        while (r.at() != ':') { if (!tchar(r.at())) throw Wrong(); n += (char) r.next(); }
        if (n.empty()) throw Wrong();
        r.i++; while (r.at() == ' ' || r.at() == '\t') r.i++;
      }
      std::string v = r.line(); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
      h.f.push_back({n, v});
    }
    h.n = r.i;
  }
  catch (Cut) { h.n = -2; }
  catch (Wrong) { h.n = -1; }
  return h;
}
std::string damage(std::string s, u32 n)
{
  static const char odd[] = "\r\n \t:/.,;()<>@[]{}?=\"\\0129HTP\x01\x08\x0b\x0c\x0e\x1f\x7f\x80\xff";
  while (n-- && !s.empty())
  {
    size_t i = choose(PLAN, 4) == 0 ? std::min(s.size() - 1, s.find(choose(PLAN, 2) ? '\r' : ':')) : choose(PLAN, s.size()); u32 k = choose(PLAN, sizeof odd); char c = k == sizeof odd - 1 ? 0 : odd[k];
    switch (choose(PLAN, 6))
    {
    case 0: case 1: s[i] = c; break;
    case 2: s.insert(i, 1, c); break;
    case 3: s.erase(i, 1); break;
    case 4: { size_t m = std::min<size_t>(s.size() - i, 1 + choose(PLAN, 8)); s.insert(i, s.substr(i, m)); break; }
    case 5: { size_t m = std::min<size_t>(s.size() - i, 1 + choose(PLAN, 20)); s.erase(i, m); break; }
    }
  }
  return s;
}
}
