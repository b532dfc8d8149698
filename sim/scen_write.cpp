// C29: messages written with the library are exactly what was given, on the wire and when read back
#include "scen.h"
#include "internal.h"
#include <sys/mman.h>
using namespace sim;

namespace {
struct Msg { bool resp; std::string a, b, host, type, date, body; };          // method target | status
struct WW { stream *s, *r = nullptr; Wire w; bool lib_reader; std::deque<Msg> sent; size_t total = 0, read = 0; std::string in; bool resp; u32 left; bool eof = false; u32 max; } *W;
std::string vis(u32 n, bool sp) { std::string s; u64 h = choose(PLAN, 1 << 16); while (n--) { h = mix(h, n); char c = 33 + h % 94; s += sp && (h >> 20) % 9 == 8 ? ' ' : c; } while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
std::string tok(u32 n) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"; std::string s; u64 h = choose(PLAN, 1 << 16); while (n--) { h = mix(h, n); s += a[h % (sizeof a - 1)]; } return s; }
struct data D(const std::string &s) { return data_construct(s.data(), s.size()); }
void w_one()
{
  Msg m; m.resp = W->resp; u32 k = choose(PLAN, 4);
  m.body.clear(); size_t n = k == 0 ? 0 : k == 1 ? 1 + choose(PLAN, 12) : size_pick(PLAN, W->max); { std::string b; fill(b, W->total, 0, n); m.body = b; }
  m.type = choose(PLAN, 3) == 2 ? vis(choose(PLAN, 60), true) : "text/plain";
  if (m.resp)
  {
    static const char *st[] = {"200 OK", "404 Not Found", "299 X", "503 Service Unavailable at this time"}; m.a = st[choose(PLAN, 4)];
    m.date = choose(PLAN, 3) == 2 ? vis(choose(PLAN, 60), true) : "Thu, 01 Jan 1970 00:00:00 GMT"; if (choose(PLAN, 4) == 3) m.type = "";
  }
  else { m.a = choose(PLAN, 3) == 2 ? tok(1 + choose(PLAN, 20)) : "GET"; m.b = "/" + vis(size_pick(PLAN, choose(PLAN, 4) == 3 ? 5000 : 40), false); m.host = choose(PLAN, 3) == 2 ? vis(choose(PLAN, 40), false) : "host"; }
  // the arguments are gone as soon as the call returns
  Msg *c = new Msg(m); note("write %s, body %zu", m.resp ? "response" : "request", m.body.size());
  if (m.resp) http_write_response(W->s, D(c->a), D(c->date), D(c->type), D(c->body)); else http_write_request(W->s, D(c->a), D(c->b), D(c->host), D(c->type), D(c->body));
  for (std::string *x : {&c->a, &c->b, &c->host, &c->type, &c->date, &c->body}) std::fill(x->begin(), x->end(), '?');
  delete c; W->sent.push_back(m); W->total++;
}
void w_some() { while (W->left && choose(PLAN, 4) != 3) { W->left--; w_one(); } stream_flush(W->s); if (W->left) stream_notify(W->s); }
typedef std::vector<std::pair<std::string, std::string>> Fields;
void compare(const Msg &m, const std::string &start, Fields f, const std::string &body)
{
  CHECK(start == (m.resp ? "HTTP/1.1 " + m.a : m.a + " " + m.b + " HTTP/1.1"), "write-start", "message %zu begins with '%.60s'", W->read, start.c_str());
  auto take = [&](const char *n) { std::string v; int k = 0; for (size_t i = 0; i < f.size();) if (!strcasecmp(f[i].first.c_str(), n)) { v = f[i].second; k++; f.erase(f.begin() + i); } else i++; CHECK(k <= 1, "write-field", "message %zu has field %s twice", W->read, n); return k ? v : std::string("\x01none"); };
  std::string len = take("Content-Length"), type = take("Content-Type"), none = "\x01none";
  if (m.resp)
  {
    CHECK(take("Server") == "reactor", "write-field", "message %zu: server field", W->read); CHECK(take("Date") == m.date, "write-field", "message %zu: the date differs from '%s'", W->read, m.date.c_str());
    CHECK(len == std::to_string(m.body.size()), "write-field", "message %zu: content length '%s', body %zu", W->read, len.c_str(), m.body.size()); CHECK(m.type.empty() ? type == none : type == m.type, "write-field", "message %zu: content type '%s', given '%s'", W->read, type.c_str(), m.type.c_str());
  }
  else
  {
    CHECK(take("Host") == m.host, "write-field", "message %zu: host differs from '%s'", W->read, m.host.c_str());
    if (m.body.empty()) CHECK(len == none || len == "0", "write-field", "message %zu: content length '%s' without a body", W->read, len.c_str()); else { CHECK(len == std::to_string(m.body.size()), "write-field", "message %zu: content length '%s', body %zu", W->read, len.c_str(), m.body.size()); CHECK(type == m.type, "write-field", "message %zu: content type '%s', given '%s'", W->read, type.c_str(), m.type.c_str()); }
  }
  CHECK(f.empty(), "write-field", "message %zu has %zu fields nobody gave", W->read, f.size());
  CHECK(body == m.body, "write-body", "message %zu: the body (%zu bytes) differs from the one given (%zu bytes)", W->read, body.size(), m.body.size());
  W->read++; nontrivial();
}
void wire_parse()
{
  while (!W->sent.empty())
  {
    Msg &m = W->sent.front(); std::string &in = W->w.in; size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) { CHECK(in.size() < 20000, "write-start", "message %zu has no end of its head", W->read); return; }
    if (in.size() - e - 4 < m.body.size()) return;
    Fields f; size_t p = in.find("\r\n"); std::string start = in.substr(0, p); p += 2;
    while (p < e + 2) { size_t q = in.find("\r\n", p), c = in.find(": ", p); CHECK(c != std::string::npos && c < q, "write-field", "message %zu has a malformed line '%.60s'", W->read, in.substr(p, q - p).c_str()); f.push_back({in.substr(p, c - p), in.substr(c + 2, q - c - 2)}); p = q + 2; }
    std::string body = in.substr(e + 4, m.body.size()); Msg k = m; W->sent.pop_front(); in.erase(0, e + 4 + k.body.size()); compare(k, start, f, body);
  }
  CHECK(W->w.in.empty(), "write-extra", "%zu bytes follow the last message written", W->w.in.size());
}
void lib_parse()
{
  while (1)
  {
    struct data in = stream_read(W->r); if (!data_size(in)) return;
    http_field f[16]; size_t nf = 16; struct data a = data_null(), b = data_null(); int code = 0;
    ssize_t n = W->resp ? http_read_response(W->r, &code, &a, f, &nf) : http_read_request(W->r, &a, &b, f, &nf);
    CHECK(n != -1, "write-unreadable", "message %zu cannot be read back", W->read); if (n < 0) return;
    CHECK(!W->sent.empty(), "write-extra", "a message is read that nobody wrote"); if (data_size(in) < n + W->sent.front().body.size()) return; Msg m = W->sent.front();
    auto S = [](struct data d) { return std::string((const char *) data_base(d), data_size(d)); };
    Fields v; for (size_t i = 0; i < nf; i++) v.push_back({S(f[i].name), S(f[i].value)});
    std::string start = W->resp ? "HTTP/1.1 " + std::to_string(code) + " " + S(a) : S(a) + " " + S(b) + " HTTP/1.1"; W->sent.pop_front(); compare(m, start, v, std::string((const char *) data_base(in) + n, m.body.size())); stream_consume(W->r, n + m.body.size());
  }
}
void w_cb(reactor_event *e) { if (e->type == STREAM_WRITE) w_some(); else if (e->type == STREAM_CLOSE) { W->eof = true; } }
void r_cb(reactor_event *e) { if (e->type == STREAM_READ) lib_parse(); else W->eof = true; }
// a body beyond 32 bits: only the head and the first part are taken from the wire, then the peer goes away
void run_huge()
{
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks(); u64 size = (4ull << 30) + choose(CFG, 3000) - 1000; W->resp = choose(CFG, 2);
  sample("%s with a body of %llu bytes", W->resp ? "response" : "request", (unsigned long long) size);
  char *b = (char *) mmap(nullptr, size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { progress(); return; }
  int fd; Sock *p = new_peer_pair(NetCfg(), &fd); Wire w; w.attach(p); W->s = (stream *) malloc(sizeof(stream)); stream_construct(W->s, [](reactor_event *) {}, nullptr); stream_open(W->s, fd, STREAM_READ, nullptr);
  struct data body = data_construct(b, size); w.on_data = [&] { if (w.in.size() > 1000) w.set_paused(true); };
  if (W->resp) http_write_response(W->s, data_string("200 OK"), data_string("Thu, 01 Jan 1970 00:00:00 GMT"), data_string("text/plain"), body); else http_write_request(W->s, data_string("PUT"), data_string("/"), data_string("host"), data_string("text/plain"), body);
  stream_flush(W->s); quiesce(); munmap(b, size); nontrivial(); probe("body_beyond_32_bits");
  size_t e = w.in.find("\r\n\r\n"), l = w.in.find("\r\nContent-Length: "); CHECK(e != std::string::npos && l < e, "write-start", "no head arrives");
  CHECK(strtoull(w.in.c_str() + l + 18, nullptr, 10) == size, "write-field", "content length '%.20s', body %llu", w.in.substr(l + 18, w.in.find("\r\n", l + 2) - l - 18).c_str(), (unsigned long long) size);
  for (size_t i = e + 4; i < w.in.size(); i++) CHECK(!w.in[i], "write-body", "the body differs from the one given");
  stream_destruct(W->s); free(W->s); w.destroy(); progress(); reactor_loop();
  CHECK(fd_count() == base && lib_blocks() == heap, "write-leak", "descriptors %s heap %s", fd_list().c_str(), lib_blocks_list().c_str());
  reactor_destruct();
}
void run_write()
{
  WW w; W = &w; if (choose(CFG, 3000) == 2999) return run_huge();
  random_env();
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  w.resp = choose(CFG, 2); w.left = 1 + choose(CFG, 12); w.lib_reader = choose(CFG, 2); w.max = pick(CFG, {300, 99, 12000, 100000, 1000000}); bool tls = choose(CFG, 5) == 4; u32 v = choose(CFG, 4);
  sample("%s n=%u body<=%u reader=%s tls=%d", w.resp ? "responses" : "requests", w.left, w.max, w.lib_reader ? "library" : "harness", tls);
  NetCfg c = random_net(!tls && choose(CFG, 2)); if (w.max >= 100000) { c.sndbuf = std::max(c.sndbuf, 16384u); c.rcvbuf = std::max(c.rcvbuf, 16384u); if (c.seg && c.seg < 1460) c.seg = 1460; } w.s = (stream *) malloc(sizeof(stream)); int fd;
  stream_construct(w.s, w_cb, nullptr);
  if (w.lib_reader)
  {
    Sock *p = new Sock, *q = new Sock; sock_pair(p, q, c); p->nonblock = q->nonblock = true; fd = fd_install(p); int fr = fd_install(q);
    w.r = (stream *) malloc(sizeof(stream)); stream_construct(w.r, r_cb, nullptr); stream_open(w.r, fr, STREAM_READ, tls ? tls_srv(v) : nullptr); stream_open(w.s, fd, STREAM_READ, tls ? tls_cli(v) : nullptr);
  }
  else { Sock *p = new_peer_pair(c, &fd); stream_open(w.s, fd, STREAM_READ, tls ? tls_cli(v) : nullptr); w.w.attach(p, tls, true, v); if (choose(NET, 3) == 2) { w.w.read_limit = (w.max >= 100000 ? 10000 : 1) + choose(NET, 5000); w.w.read_delay = choose(NET, 100000); } w.w.on_data = [] { wire_parse(); }; }
  w_some(); quiesce();
  while (w.left) { w.left--; w_one(); if (choose(PLAN, 2)) { stream_flush(w.s); quiesce(); } }
  stream_flush(w.s); w.w.read_limit = ~0ull; quiesce();
  CHECK(!w.eof, "write-closed", "the connection was closed"); CHECK(w.sent.empty() && w.read == w.total, "write-missing", "%zu messages were written, %zu arrived when all is quiet", w.total, w.read);
  stream_destruct(w.s); free(w.s); if (w.r) { stream_destruct(w.r); free(w.r); } w.w.destroy(); progress(); reactor_loop();
  CHECK(fd_count() == base && lib_blocks() == heap, "write-leak", "descriptors %s heap %s", fd_list().c_str(), lib_blocks_list().c_str());
  reactor_destruct();
}
Reg r29("C29", "http_write", run_write);
}
