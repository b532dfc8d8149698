// C16..C21, C23: the HTTP server against scripted clients
#include "scen.h"
#include "internal.h"
#include <ctime>
using namespace sim;

namespace {
enum { P16 = 1, P17 = 2, P18 = 4, P19 = 8, P20 = 16, P21 = 32, P23 = 64 };
struct Prof { u32 self; int tls, bad /* percent of clients with a malformed head */, gone /* percent of clients that leave early */; u32 max_body, max_reqs, clients; int delay /* percent */, hold, app_close, shutdown; bool faults, steps, slow, handoff; int bursts; };
struct Spec { std::string method, target; std::vector<std::pair<std::string, std::string>> fields; std::string wire; };
struct Ans { std::string status, type; bool typed; std::string body; u64 lo = 0, hi = 0; bool closing = false; };
struct Srv; struct Rq;
struct Cl { size_t part = 0;
  int id; Wire w; Sock *lib = nullptr; bool tls = false; Srv *srv = nullptr; std::vector<Spec> reqs; int bad_at = -1; std::string extra; std::string script; bool scheduled_end = false;
  size_t delivered = 0; Rq *out = nullptr; std::vector<Ans> ans; size_t pos = 0, got = 0; bool got400 = false; bool cut = false, app_closed = false, ended = false, connected = false; size_t fed = 0;
};
struct Srv { server *s; int id; int fd = -1; Listener *l = nullptr; bool open = true, destructed = false, tls = false; SSL_CTX *ctx = nullptr; std::vector<Cl *> cl; u32 var; };
struct Rq { server_request *r; Cl *c; size_t seq; int holds = 0; u32 bulk = 0; bool answered = false; timer *t = nullptr; };
struct SW { Prof p; std::vector<Srv *> srv; std::vector<Cl *> cl; std::vector<Rq *> held; int ops; u64 ret[4] = {}; std::vector<std::pair<u64, int64_t>> wall; u64 constructed; int depth = 0; bool ending = false, exhausted = false; u32 endure = 0; } *W;
bool on(u32 m) { return W->p.self & m; }
#define SC(m, cond, ...) do { if (on(m)) CHECK(cond, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- client side
std::string token(u32 n) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"; std::string s; u64 h = choose(PLAN, 1 << 16); while (n--) { h = mix(h, n); s += a[h % (sizeof a - 1)]; } return s; }
std::string text(u32 n) { std::string s; u64 h = choose(PLAN, 1 << 16); while (n--) { h = mix(h, n); char ch = 33 + h % 94; s += (h >> 20) % 12 == 11 ? ' ' : ch; } while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
Spec make_spec(Cl *c, size_t k)
{
  Spec s; static const char *m[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "X-LONG_METHOD"};
  static const char *m2[] = {"PATCH", "CONNECT", "TRACE", "G", "get", "PROPFIND", "PRI"}; u32 mk = choose(PLAN, 12); s.method = mk < 10 ? m[mk % 7] : mk == 10 ? m2[choose(PLAN, 7)] : token(1 + choose(PLAN, 40));
  static const char *pre[] = {"http://example.com:80", "*", "/", "host", "/%2e%2e", "/.."};
  char b[64]; snprintf(b, sizeof b, "/c%d/r%zu", c->id, k); s.target = b; if (choose(PLAN, 12) == 11) s.target.insert(0, pre[choose(PLAN, 6)]);
  if (choose(PLAN, 4) == 3) { s.target += "?"; u32 n = size_pick(PLAN, choose(PLAN, 4) == 3 ? choose(PLAN, 16) == 15 ? 200000 : 9000 : 60); if (n > 100000 && on(P16) && choose(PLAN, 2)) { n = 1000000 + choose(PLAN, 3000000); probe("head_of_megabytes"); } for (u32 i = 0; i < n; i++) s.target += (char) ('!' + (i * 7 + k) % 90); }
  u32 nf = pick(PLAN, {1, 0, 3, 16, 15, 8});
  for (u32 i = 0; i < nf; i++)
  {
    std::string n = choose(PLAN, 3) < 2 ? (i % 2 ? "Host" : "Accept") : token(1 + choose(PLAN, 12)), v = choose(PLAN, 4) == 3 ? (choose(PLAN, 2) ? "" : text(size_pick(PLAN, 300))) : "value";
    s.fields.push_back({n, v});
  }
  static const char *meant[][2] = {{"Connection", "close"}, {"connection", "keep-alive"}, {"Expect", "100-continue"}, {"Content-Length", "0"}, {"Upgrade", "h2c"}, {"Keep-Alive", "timeout=1, max=1"}, {"If-None-Match", "*"}, {"Range", "bytes=0-1"}, {"Accept-Encoding", "gzip"}};
  if (nf && choose(PLAN, 4) == 3) { u32 w = choose(PLAN, 9); s.fields[choose(PLAN, nf)] = {meant[w][0], meant[w][1]}; probe("field_with_meaning"); }
  s.wire = choose(PLAN, 16) == 15 ? "\r\n" : "";
  s.wire += s.method + " " + s.target + (choose(PLAN, 5) == 4 ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n");
  for (auto &f : s.fields) s.wire += f.first + ":" + std::string(choose(PLAN, 3) == 2 ? choose(PLAN, 3) : 1, ' ') + f.second + (choose(PLAN, 9) == 8 ? " \r\n" : "\r\n");
  s.wire += "\r\n";
  return s;
}
std::string make_bad(Cl *c)
{
  std::string t = "/c" + std::to_string(c->id) + "/bad";
  if (choose(PLAN, 2)) for (int i = 0; i < 6; i++)
  {
    std::string s = damage(make_spec(c, 9001).wire, 1 + choose(PLAN, 2)); if (choose(PLAN, 2)) { size_t e = s.find('\n'); std::string l = "N: v\rx\r\n"; if (e != std::string::npos) s.insert(e + 1, choose(PLAN, 2) ? l : damage(l, 1)); }
    if (ref_head(false, s, 16).n == -1) { probe("damaged_head"); return s; }
  }
  switch (choose(PLAN, 12))
  {
  case 0: return "invalid\r\n\r\n";
  case 1: return "GET " + t + " HTTP/2.0\r\nHost: x\r\n\r\n";
  case 2: return "GET " + t + " HTTP/1.1\r\nBad Header: x\r\n\r\n";
  case 3: { std::string s = "GET " + t + " HTTP/1.1\r\n"; u32 n = 17 + choose(PLAN, 4); for (u32 i = 0; i < n; i++) s += "F" + std::to_string(i) + ": v\r\n"; return s + "\r\n"; }
  case 4: return "GET " + t + " HTTP/1.1\r\nNoColonHere\r\n\r\n";
  case 5: { std::string s = "GET " + t + " HTTP/1.1\r\n\r\n"; s[1] = 1; return s; }
  case 6: { std::string s = "GET " + t + "x HTTP/1.1\r\n\r\n"; s[s.find('x')] = 7; return s; }
  case 7: return "GET " + t + " HTTP/1.x\r\n\r\n";
  case 8: return "GET " + t + "\r\n\r\n";
  case 9: return "GET " + t + " HTTP/1.1\r\n folded: first\r\n\r\n";
  case 10: { std::string s = "GET " + t + " HTTP/1.1\r\nName: va#lue\r\n\r\n"; s[s.find('#')] = 0; return s; }
  default: return " " + t + " HTTP/1.1\r\n\r\n";
  }
}
bool date_ok(const std::string &d, u64 lo, u64 hi, bool &format)
{
  static const char *days[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  format = false;
  struct tm tm; memset(&tm, 0, sizeof tm); char wd[8] = "", mn[8] = ""; int n = 0;
  if (d.size() != 29 || sscanf(d.c_str(), "%3s, %2d %3s %4d %2d:%2d:%2d GMT%n", wd, &tm.tm_mday, mn, &tm.tm_year, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &n) != 7 || n != 29) return false;
  int m = -1; for (int i = 0; i < 12; i++) if (!strcmp(mon[i], mn)) m = i;
  if (m < 0) return false;
  tm.tm_mon = m; tm.tm_year -= 1900; time_t t = timegm(&tm);
  struct tm back; gmtime_r(&t, &back); char again[64];
  snprintf(again, sizeof again, "%s, %02d %s %04d %02d:%02d:%02d GMT", days[back.tm_wday], back.tm_mday, mon[back.tm_mon], back.tm_year + 1900, back.tm_hour, back.tm_min, back.tm_sec);
  if (d != again) return false;
  format = true;
  for (size_t i = 0; i < W->wall.size(); i++)
  {
    u64 a = std::max(lo, W->wall[i].first), b = i + 1 < W->wall.size() ? std::min(hi, W->wall[i + 1].first) : hi;
    if (a > b) continue;
    int64_t x = ((int64_t) a + W->wall[i].second) / 1000000000, y = ((int64_t) b + W->wall[i].second) / 1000000000;
    if ((int64_t) t >= x && (int64_t) t <= y) return true;
  }
  return false;
}
std::string printable(const std::string &s) { std::string o; char b[8]; for (unsigned char ch : s) { if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += ch; } return o; }
void parse(Cl *c)
{
  const std::string &in = c->w.in;
  if (c->w.garbage) return;
  while (c->pos < in.size())
  {
    size_t e = in.find("\r\n\r\n", c->pos);
    size_t bound = std::min(in.size() - c->pos, (size_t) 9);
    CHECK(in.compare(c->pos, bound, std::string("HTTP/1.1 ").substr(0, bound)) == 0, "server-response-head", "client %d: what follows response %zu is not a response", c->id, c->got);
    if (e == std::string::npos) { CHECK(in.size() - c->pos < 20000, "server-response-head", "client %d: response head without end", c->id); return; }
    CHECK(c->got < c->ans.size() || (c->bad_at >= 0 && c->got == (size_t) c->bad_at), "server-extra-response", "client %d receives response %zu, only %zu requests were answered (script ends with %s)", c->id, c->got, c->ans.size(), printable(c->script.substr(c->script.size() > 200 ? c->script.size() - 200 : 0)).c_str());
    CHECK(!c->got400, "server-after-400", "client %d receives another response after the 400", c->id);
    std::string head = in.substr(c->pos, e + 2 - c->pos), status; size_t p = head.find("\r\n"); status = head.substr(9, p - 9); p += 2;
    std::map<std::string, std::string> f;
    while (p < head.size())
    {
      size_t q = head.find("\r\n", p), co = head.find(": ", p);
      CHECK(q != std::string::npos && co != std::string::npos && co < q && co > p, "server-response-head", "client %d: response %zu has a malformed header line", c->id, c->got);
      std::string n = head.substr(p, co - p), v = head.substr(co + 2, q - co - 2);
      CHECK(!f.count(n), "server-response-head", "client %d: response %zu has field %s twice", c->id, c->got, n.c_str());
      for (char ch : n) CHECK(isalnum((unsigned char) ch) || ch == '-', "server-response-head", "client %d: response %zu has a malformed field name", c->id, c->got);
      f[n] = v; p = q + 2;
    }
    bool is400 = c->bad_at >= 0 && c->got == (size_t) c->bad_at;
    Ans bad; bad.status = "400 Bad Request"; bad.typed = false; bad.lo = 0; bad.hi = mono;
    const Ans &a = is400 ? bad : c->ans[c->got];
    CHECK(status == a.status, "server-response-status", "client %d: response %zu has status '%s', the answer was '%s'", c->id, c->got, status.c_str(), a.status.c_str());
    CHECK(f.count("Content-Length") && f["Content-Length"] == std::to_string(a.body.size()), "server-response-length", "client %d: response %zu has content length '%s', the body has %zu bytes", c->id, c->got, f["Content-Length"].c_str(), a.body.size());
    if (in.size() - (e + 4) < a.body.size())
    { size_t k = std::max(c->part, e + 4); c->part = in.size(); CHECK(in.compare(k, std::string::npos, a.body, k - e - 4, in.size() - k) == 0, "server-response-body", "client %d: the body of response %zu differs from the one given", c->id, c->got); return; }
    CHECK(in.compare(e + 4, a.body.size(), a.body) == 0, "server-response-body", "client %d: the body of response %zu differs from the one given", c->id, c->got);
    CHECK((f.count("Content-Type") > 0) == a.typed && (!a.typed || f["Content-Type"] == a.type), "server-response-type", "client %d: response %zu has content type '%s', given was '%s'", c->id, c->got, f.count("Content-Type") ? f["Content-Type"].c_str() : "(none)", a.typed ? a.type.c_str() : "(none)");
    if (on(P21 | P16 | P17))
    {
      CHECK(f.count("Server") && !f["Server"].empty(), "server-response-head", "client %d: response %zu has no server field", c->id, c->got);
      CHECK(f.count("Date"), "server-date", "client %d: response %zu has no date", c->id, c->got);
    }
    if (on(P21))
    {
      bool fmt; bool ok = date_ok(f["Date"], a.lo, std::min(a.hi, mono), fmt);
      CHECK(fmt, "server-date-format", "client %d: response %zu has date '%s', which is not an HTTP date", c->id, c->got, f["Date"].c_str());
      CHECK(ok, "server-date-stale", "client %d: response %zu has date '%s', the wall clock was between %lld and %lld since little more than a second before (offset %lld)", c->id, c->got, f["Date"].c_str(), (long long) (a.lo / 1000000), (long long) (a.hi / 1000000), (long long) real_off / 1000000);
      nontrivial();
    }
    c->pos = e + 4 + a.body.size(); c->got++;
    if (is400) { c->got400 = true; probe("got_400"); }
  }
}
void feed(Cl *c)
{
  if (c->w.closed || c->fed >= c->script.size()) return;
  size_t left = c->script.size() - c->fed, n = choose(NET, 3) == 0 ? left : left > 500000 ? 100000 + choose(NET, 1000000) : 1 + size_pick(NET, std::min<size_t>(left - 1, choose(NET, 2) ? 50 : left - 1));
  n = std::min(n, left); c->w.send(c->script.substr(c->fed, n)); c->fed += n;
  if (c->fed < c->script.size()) after(between(NET, 0, pick(NET, {0, 1000, 300000, 30000000})), [c] { feed(c); });
}
void client_end(Cl *c)
{
  if (c->w.closed || c->ended) return;
  c->ended = true; note("client %d leaves", c->id);
  switch (choose(FAULT, 5))
  {
  case 0: c->w.close(); fault("client_close"); break;
  case 1: c->w.reset_now(); fault("client_reset"); break;
  case 2: c->w.half_close(); fault("client_half_close"); break;
  case 3: c->w.closed = true; conn_timeout(c->lib); break;
  case 4: if (c->tls) { c->w.garbage = true; c->w.outq.clear(); c->w.send("\x16\x03\x01 garbage garbage garbage"); fault("tls_garbage"); after(1000, [c] { c->w.reset_now(); }); } else c->w.close(); break;
  }
}
void client_start(Cl *c, Sock *peer)
{
  c->connected = true; c->lib = peer->peer;
  if (W->p.slow && choose(NET, 2)) { c->w.read_limit = 500 + choose(NET, 30000); c->w.read_delay = choose(NET, 200000); }
  c->w.on_data = [c] { parse(c); };
  c->w.attach(peer, c->tls, false, c->srv->var);
  if (!c->script.empty()) feed(c);
  if ((int) choose(PLAN, 100) >= 100 - W->p.gone) at(mono + between(FAULT, 0, pick(FAULT, {0, 5000, 1000000, 50000000})), [c] { client_end(c); });
}
void connect_client(Srv *s)
{
  Cl *c = new Cl; c->id = W->cl.size(); W->cl.push_back(c); s->cl.push_back(c); c->srv = s; c->tls = s->tls;
  size_t n = choose(PLAN, 6) == 5 ? choose(PLAN, W->p.max_reqs + 1) : std::min<u32>(W->p.max_reqs, 1 + choose(PLAN, 6));
  if (W->endure) { n = W->endure; W->endure = 0; probe("thousands_of_requests"); }
  for (size_t i = 0; i < n; i++) { c->reqs.push_back(make_spec(c, i)); c->script += c->reqs.back().wire; }
  if ((int) choose(PLAN, 100) >= 100 - W->p.bad)
  {
    c->bad_at = n; c->script += make_bad(c);
    if (choose(PLAN, 2)) { u32 k = 1 + choose(PLAN, 2); while (k--) c->script += make_spec(c, 9000).wire; probe("bytes_after_malformed"); }
  }
  else if (choose(PLAN, 6) == 5) { std::string t = make_spec(c, n).wire; c->script += t.substr(0, choose(PLAN, t.size() - 1)); probe("incomplete_head"); }
  NetCfg cfg = random_net(false);
  if ((!W->p.slow && choose(NET, 2)) || c->script.size() > 500000) { cfg.sndbuf = 1 << 20; cfg.rcvbuf = 1 << 20; }
  if (W->p.handoff && choose(PLAN, 2) && cur && !in_kernel)
  {
    cfg.unix_domain = choose(NET, 2); int fd; Sock *p = new_peer_pair(cfg, &fd);
    note("client %d handed to the server (fd %d)", c->id, fd); client_start(c, p); server_accept(s->s, fd); probe("handed_over"); return;
  }
  if (!s->l || !s->l->listening) { c->ended = true; return; }
  Sock *p = peer_connect(s->l, cfg); note("client %d connects%s, %zu requests%s", c->id, c->tls ? " (tls)" : "", n, c->bad_at >= 0 ? " then a malformed one" : "");
  if (!p) { c->ended = true; return; }
  client_start(c, p);
}

// ---------------------------------------------------------------- application side
void app_cb(reactor_event *e);
void app_op();
void drop_rq(Rq *q) { W->held.erase(std::find(W->held.begin(), W->held.end(), q)); }
void touch(Rq *q)
{
  volatile char c = *(volatile char *) q->r; (void) c;
  if (q->answered || !on(P18 | P16)) return;       // readable until it is answered
  const Spec &s = q->c->reqs[q->seq]; server_request *r = q->r;
  auto eq = [](struct data d, const std::string &x) { return data_size(d) == x.size() && !memcmp(data_base(d), x.data(), x.size()); };
  CHECK(eq(r->method, s.method) && eq(r->target, s.target) && r->fields_count == s.fields.size(), "server-request-stale", "client %d: request %zu, not answered yet, reads '%.*s' '%.*s'", q->c->id, q->seq, (int) std::min<size_t>(data_size(r->method), 40), (const char *) data_base(r->method), (int) std::min<size_t>(data_size(r->target), 40), (const char *) data_base(r->target));
  for (size_t i = 0; i < s.fields.size(); i++) CHECK(eq(r->fields[i].name, s.fields[i].first) && eq(r->fields[i].value, s.fields[i].second), "server-request-stale", "client %d: field %zu of request %zu, not answered yet, differs", q->c->id, i, q->seq);
}
void answer(Rq *q)
{
  Cl *c = q->c; touch(q);
  Ans a; a.typed = choose(PLAN, 2); u32 kind = choose(PLAN, 5);
  if (kind == 4 && !(W->p.app_close && choose(PLAN, 2))) kind = 0;
  static const char *st[] = {"200 OK", "201 Created", "404 Not Found", "500 Internal Server Error", "302 Found"};
  a.type = a.typed ? (choose(PLAN, 2) ? "text/plain" : "application/json; charset=utf-8; x=" + token(choose(PLAN, 60))) : "";
  size_t n = choose(PLAN, 3) == 2 ? size_pick(PLAN, W->p.max_body > 400000 && (choose(PLAN, 12) < 11 || (c->lib && c->lib->cfg.sndbuf < 4096)) ? (c->lib && c->lib->cfg.sndbuf < 4096 ? 30000 : 100000) : W->p.max_body) : size_pick(PLAN, 300); fill(a.body, 40000 + c->id * 1000 + c->ans.size(), 0, n);
  switch (kind)
  {
  case 1: a.status = "404 Not Found"; a.typed = false; a.body.clear(); break;
  case 2: a.status = st[choose(PLAN, 5)]; break;
  case 4: a.status = "400 Bad Request"; a.typed = false; a.body.clear(); a.closing = true; break;
  default: a.status = "200 OK";
  }
  a.lo = W->ret[2] > 1000000000ull + 1000000 ? W->ret[2] - 1000000000ull - 1000000 : 0; if (a.lo < W->constructed) a.lo = W->constructed;
  a.lo = std::min(a.lo, mono > 1100000000 ? mono - 1100000000 : 0); a.hi = mono + 5 * knobs.cost + 1000;
  if (a.lo < W->constructed) a.lo = W->constructed;
  note("answer %zu of client %d: %s, body %zu", q->seq, c->id, a.status.c_str(), a.body.size());
  if (c->out == q) c->out = nullptr;
  bool dead = c->app_closed;                       // answering after the application closed: nothing may be sent
  q->answered = true;
  if (!dead) { c->ans.push_back(a); if (a.closing) c->app_closed = true; }
  bool held = q->holds > 0; size_t idx = c->ans.size() - 1; if (!dead) c->ans[idx].hi = ~0ull;    // a stall may hold the call up
  struct data t = a.typed ? data_construct((const char *) a.type.data(), a.type.size()) : choose(PLAN, 2) ? data_null() : data_construct((const char *) "", 0);
  char *b = (char *) malloc(a.body.size() + 1); memcpy(b, a.body.data(), a.body.size()); struct data body = a.body.empty() ? data_null() : data_construct(b, a.body.size());
  server_request *r = q->r;
  if (!held) { drop_rq(q); if (q->t) { timer_destruct(q->t); free(q->t); } delete q; }
  W->depth++;
  std::string stat = a.status;
  switch (kind) { case 1: server_not_found(r); break; case 2: server_respond(r, data_construct((const char *) stat.data(), stat.size()), t, body); break; case 4: server_bad_request(r); break; default: server_ok(r, t, body); }
  W->depth--;
  if (!dead) c->ans[idx].hi = mono;
  memset(b, 0xDD, a.body.size()); free(b);
}
void release_hold(Rq *q) { touch(q); q->holds--; server_request *r = q->r; if (q->bulk && (!q->holds || choose(PLAN, 3) == 2)) { u32 n = q->bulk; q->bulk = 0; while (n--) server_release(r); touch(q); } bool last = q->holds == 0 && q->answered; note("release a hold of client %d", q->c->id); if (last) { drop_rq(q); if (q->t) { timer_destruct(q->t); free(q->t); } delete q; } server_release(r); }
void rq_step(Rq *q)         // answer or release
{
  if (q->answered) release_hold(q);
  else if (q->holds && choose(PLAN, 3) == 2) { touch(q); release_hold(q); }
  else answer(q);
}
void delay_cb(reactor_event *e) { Rq *q = (Rq *) e->state; timer_clear(q->t); if (!q->answered) answer(q); }
void shutdown_srv(Srv *s)
{
  if (!s->s) return;
  u32 how = choose(PLAN, 3);
  note("server %d %s", s->id, how == 2 ? "destruct" : "shutdown"); if (W->depth) probe("shutdown_in_callback");
  for (Cl *c : s->cl) { if (c->out) probe("shutdown_with_outstanding_request"); }
  s->open = false;
  if (how == 2) { server_destruct(s->s); s->destructed = true; memset((void *) s->s, 0xEE, sizeof(server)); free(s->s); s->s = nullptr; }
  else { server_shutdown(s->s); if (how == 1) { server_shutdown(s->s); probe("shutdown_twice"); } }
  for (Cl *c : s->cl) c->app_closed = c->cut = true;
}
// a server that was shut down is opened again, as one of either kind
void reopen(Srv *s)
{
  s->tls = (int) choose(PLAN, 100) >= 50 - W->p.tls; s->var = choose(PLAN, 4); s->ctx = s->tls ? tls_srv(s->var) : nullptr; s->l = new_listener(&s->fd);
  note("server %d opened again on fd %d%s", s->id, s->fd, s->tls ? " (tls)" : ""); s->open = true; probe("server_reopened"); server_open(s->s, s->fd, s->ctx);
}
void app_op()
{
  if (W->ops <= 0) return;
  W->ops--;
  const Prof &p = W->p;
  switch (choose(PLAN, 8))
  {
  case 0: case 1: if (!W->held.empty()) rq_step(W->held[choose(PLAN, W->held.size())]); break;
  case 2: if (W->cl.size() < W->p.clients + 8) { Srv *s = W->srv[choose(PLAN, W->srv.size())]; if (s->open && s->s) { u32 n = p.bursts && choose(PLAN, 3) == 2 ? 1 + choose(PLAN, p.bursts) : 1; while (n--) connect_client(s); } } break;
  case 3: if (p.hold && !W->held.empty()) { Rq *q = W->held[choose(PLAN, W->held.size())]; if (!q->answered || q->holds) { touch(q); q->holds++; server_hold(q->r); if (choose(PLAN, 30) == 29 && !q->bulk) { q->bulk = choose(PLAN, 8) == 7 ? 65535 + choose(PLAN, 2) : 254 + choose(PLAN, 4); for (u32 i = 0; i < q->bulk; i++) server_hold(q->r); probe("many_holds"); } note("hold client %d", q->c->id); probe("extra_hold"); } } break;
  case 4: if ((int) choose(PLAN, 100) >= 100 - p.app_close && !W->held.empty()) { Rq *q = W->held[choose(PLAN, W->held.size())]; note("application closes client %d", q->c->id); touch(q); server_close(q->r); q->c->app_closed = true; probe("application_close"); if (choose(PLAN, 2)) server_close(q->r); } break;
  case 5: if ((int) choose(PLAN, 100) >= 100 - p.shutdown) { Srv *s = W->srv[choose(PLAN, W->srv.size())]; if (s->s && !s->open && choose(PLAN, 2)) reopen(s); else shutdown_srv(s); } break;
  case 6: if (p.steps) { static const int64_t d[] = {1500000000, 3600000000000, -1500000000, -86400000000000, 999999999, 400ll * 86400 * 1000000000}; step_clock(d[choose(FAULT, 6)]); W->wall.push_back({mono, real_off}); } break;
  case 7: if (p.faults && choose(FAULT, 3) == 2)
    {
      Srv *s = W->srv[choose(PLAN, W->srv.size())]; if (!s->l || !s->l->listening || s->l->exhausted) break;
      Listener *l = s->l; s->l->exhausted = pick(FAULT, {EMFILE, ENFILE, ENOMEM, ENOBUFS}); W->exhausted = true; note("accepting on server %d fails from now on", s->id);
      at(mono + between(FAULT, 1000, pick(FAULT, {100000, 100000000, 3000000000u})), [l] { l->exhausted = 0; note("accepting works again"); });
    }
    else if (p.faults) { Srv *s = W->srv[choose(PLAN, W->srv.size())]; static const int er[] = {ECONNABORTED, EINTR, EPROTO, EPERM, ENETDOWN, EHOSTUNREACH, ENOPROTOOPT, EHOSTDOWN, ENONET, EOPNOTSUPP, ENETUNREACH}; if (s->l && s->l->listening) { u32 n = 1 + choose(FAULT, 3); while (n--) { u32 g = choose(FAULT, 3); while (g--) s->l->faults.push_back(0); s->l->faults.push_back(er[choose(FAULT, 11)]); } } } break;
  }
}
void app_cb(reactor_event *e)
{
  Srv *s = (Srv *) e->state; server_request *r = (server_request *) e->data;
  CHECK(e->type == SERVER_REQUEST, "server-event", "unknown callback type %d", e->type);
  CHECK(s->open, "server-after-shutdown", "a request is delivered after the server was shut down");
  std::string t((const char *) data_base(r->target), data_size(r->target)); int id = -1; unsigned long k = 0;
  CHECK(t.find("/c") != t.npos && sscanf(t.c_str() + t.find("/c"), "/c%d/r%lu", &id, &k) == 2 && id >= 0 && id < (int) W->cl.size(), "server-request-invented", "a request for '%.60s' is delivered, which no client sent", t.c_str());
  Cl *c = W->cl[id];
  note("request %lu of client %d delivered", k, id);
  CHECK(c->srv == s, "server-request-foreign", "a request of another server's client is delivered");
  CHECK(!c->out, "server-request-early", "client %d: request %lu is delivered although request %zu is not answered", id, k, c->out ? c->out->seq : 0);
  CHECK(!c->app_closed, "server-after-close", "client %d: a request is delivered after the application closed the connection", id);
  CHECK(k == c->delivered && c->delivered < c->reqs.size(), "server-request-order", "client %d: request %lu is delivered, %zu was expected", id, k, c->delivered);
  const Spec &q = c->reqs[k];
  auto eq = [](struct data d, const std::string &x) { return data_size(d) == x.size() && !memcmp(data_base(d), x.data(), x.size()); };
  CHECK(eq(r->method, q.method), "server-request-content", "client %d: request %lu has method '%.*s', sent was '%s'", id, k, (int) std::min<size_t>(data_size(r->method), 40), (const char *) data_base(r->method), q.method.c_str());
  CHECK(eq(r->target, q.target), "server-request-content", "client %d: request %lu has another target", id, k);
  CHECK(r->fields_count == q.fields.size(), "server-request-content", "client %d: request %lu has %zu fields, %zu were sent", id, k, r->fields_count, q.fields.size());
  for (size_t i = 0; i < q.fields.size(); i++) CHECK(eq(r->fields[i].name, q.fields[i].first) && eq(r->fields[i].value, q.fields[i].second), "server-request-content", "client %d: field %zu of request %lu differs", id, i, k);
  c->delivered++; nontrivial();
  if (k + 1 < c->reqs.size() && c->fed >= c->script.size()) probe("pipelined");
  Rq *x = new Rq; x->r = r; x->c = c; x->seq = k; c->out = x; W->held.push_back(x);
  W->depth++;
  if (W->ending || (int) choose(PLAN, 100) < 100 - W->p.delay) { if (choose(PLAN, 4) == 3 && !W->ending) { app_op(); if (std::find(W->held.begin(), W->held.end(), x) != W->held.end() && !x->answered) answer(x); } else answer(x); }
  else if (choose(PLAN, 2) && !W->p.steps)
  {
    u64 d = between(PLAN, 1000, pick(PLAN, {1000, 1000000, 100000000, 3000000000u})); x->t = (timer *) malloc(sizeof(timer)); timer_construct(x->t, delay_cb, x); timer_set(x->t, d, 0);
    at(mono + d + 2000, [] {}); probe("delayed_answer");
  }
  else probe("answered_later");
  u32 n = choose(PLAN, 2); while (n--) app_op();
  for (Rq *h : W->held) touch(h);
  W->depth--;
}
Srv *new_srv(bool listen)
{
  Srv *s = new Srv; s->id = W->srv.size(); W->srv.push_back(s); s->tls = (int) choose(CFG, 100) >= 100 - W->p.tls; s->var = choose(CFG, 4); s->ctx = s->tls ? tls_srv(s->var) : nullptr;
  s->s = (server *) malloc(sizeof(server)); memset((void *) s->s, 0xA5, sizeof(server));
  server_construct(s->s, app_cb, s);
  if (listen || s->tls) { s->l = new_listener(&s->fd); note("server %d open on fd %d%s", s->id, s->fd, s->tls ? " (tls)" : ""); server_open(s->s, s->fd, s->ctx); } else probe("server_without_listener");
  return s;
}
// once descriptors and memory are there again, what waits is served within little more than a second
void recover()
{
  quiesce();
  while (W->exhausted)
  {
    W->exhausted = false;
    for (Srv *s : W->srv) if (s->l && s->l->exhausted) s->l->exhausted = 0;
    settle(1000000000ull + 50000000); probe("recovered_from_exhaustion"); quiesce();
  }
}
void checks(bool final)
{
  for (Rq *h : W->held) touch(h);
  for (Cl *c : W->cl)
  {
    if (!c->connected) continue;
    parse(c);
    if (c->ended || c->w.closed || c->w.paused || c->w.garbage || c->lib->aborted) continue;
    bool eof = c->w.eof || c->w.reset || c->w.s->dead;
    if (c->app_closed) { if (!c->out) SC(P17 | P18 | P19, eof, "server-close-peer", "client %d: the connection is closed by the server but the client sees no end when all is quiet", c->id); if (c->lib->lost_out == 0 && !c->ans.empty() && c->ans.back().closing && !c->cut) SC(P18 | P17, c->got == c->ans.size(), "server-400-lost", "client %d: %zu responses were given, %zu arrived", c->id, c->ans.size(), c->got); continue; }
    if (c->fed < c->script.size()) continue;
    size_t want = c->out ? c->out->seq + 1 : c->reqs.size();
    CHECK(c->delivered == want, "server-request-missed", "client %d sent %zu requests, %zu are delivered and %zu answered when all is quiet", c->id, c->reqs.size(), c->delivered, c->ans.size());
    if (c->bad_at >= 0 && !c->out)
    {
      if (c->lib->lost_out == 0) CHECK(c->got400, "server-no-400", "client %d: no 400 response to a malformed request (%zu of %zu answers arrived)", c->id, c->got, c->ans.size());
      CHECK(eof, "server-400-open", "client %d: the connection stays open after a malformed request", c->id);
      continue;
    }
    CHECK(!eof, "server-closed", "client %d: the connection was closed although neither side asked for it", c->id);
    CHECK(c->got == c->ans.size(), "server-response-missed", "client %d: %zu requests were answered, %zu responses have arrived when all is quiet", c->id, c->ans.size(), c->got);
  }
}
void run_server(Prof p)
{
  SW w; W = &w; random_env();
  bool crowd = (p.self & P20) && choose(CFG, 150) == 149;
  if ((p.self & (P16 | P23)) && choose(CFG, 150) == 149) { w.endure = 300 + choose(CFG, 4000); p.max_body = 200; p.clients = 2; p.gone = 0; }
  w.p = p; w.ops = 5 + choose(CFG, 50); w.wall.push_back({0, real_off}); w.constructed = mono;
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks(); u64 ssl = ssl_live;
  on_epoll_return = [](int, const epoll_event *) { W->ret[3] = W->ret[2]; W->ret[2] = W->ret[1]; W->ret[1] = W->ret[0]; W->ret[0] = mono; };
  u32 ns = choose(CFG, 4) == 3 ? 2 : 1, nc = 1 + choose(CFG, p.clients), rounds = 1 + choose(CFG, 6);
  sample("servers=%u clients=%u ops=%d rounds=%u eintr=%u stall=%u", ns, nc, w.ops, rounds, knobs.eintr, knobs.stall);
  for (u32 i = 0; i < ns; i++) new_srv(!(p.handoff && choose(CFG, 3) == 2));
  for (u32 r = 0; r < rounds; r++)
  {
    u32 n = r == 0 ? nc : choose(PLAN, 3); if (r == 0 && crowd) { n = 150 + choose(PLAN, 250); probe("crowd"); }
    while (n--) { Srv *s = w.srv[choose(PLAN, w.srv.size())]; if (!s->open || !s->s) continue; if (p.faults && choose(PLAN, 2)) { at(mono + between(NET, 0, 2000000), [s] { if (s->open) connect_client(s); }); } else connect_client(s); }
    u32 k = choose(PLAN, 4); while (k--) app_op();
    u32 st = choose(PLAN, 6); while (st--) { step(); if (choose(PLAN, 3) == 2) app_op(); }
    if (p.steps && choose(PLAN, 2)) settle(between(PLAN, 1000, 3000000000ull));
    if (p.slow && choose(PLAN, 4) == 3) settle(pick(PLAN, {60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 660, 660, 7300}) * 1000000000ull);
    if (choose(PLAN, 2)) { recover(); checks(false); }
    if (w.srv.back()->destructed && choose(PLAN, 2)) new_srv(true);
    if (w.srv.back()->s && !w.srv.back()->open && choose(PLAN, 2)) { reopen(w.srv.back()); u32 n = 1 + choose(PLAN, 3); while (n--) connect_client(w.srv.back()); }
  }
  w.ops = 0;
  if (choose(PLAN, 3) < 2)
  {
    w.ending = true;
    for (Cl *c : w.cl) c->w.read_limit = ~0ull;
    recover(); while (!w.held.empty()) { rq_step(w.held[0]); if (choose(PLAN, 2)) step(); }
    recover(); while (!w.held.empty()) rq_step(w.held[0]);
    recover(); checks(true); probe("all_answered");
  }
  w.ending = true;
  if (on(P19) && choose(PLAN, 3) == 2)
  {
    for (Srv *s : w.srv) { s->open = false; for (Cl *c : s->cl) c->app_closed = c->cut = true; if (s->s) server_shutdown(s->s); }
    while (!w.held.empty()) rq_step(w.held[choose(PLAN, w.held.size())]);
    progress(); reactor_loop(); probe("loop_ended_without_destruct");
    CHECK(fd_count() == base, "server-fd-leak", "all servers are shut down, descriptors left: %s", fd_list().c_str());
  }
  for (Srv *s : w.srv)
  {
    if (s->s && s->open && choose(PLAN, 2)) { s->open = false; for (Cl *c : s->cl) c->app_closed = c->cut = true; server_shutdown(s->s); if (choose(PLAN, 2)) step(); }
    s->open = false; for (Cl *c : s->cl) c->app_closed = c->cut = true;
    if (s->s) { server_destruct(s->s); free(s->s); s->s = nullptr; s->destructed = true; }
    if (choose(PLAN, 2)) quiesce();
  }
  if (!w.held.empty()) probe("held_after_destruct");
  while (!w.held.empty()) { rq_step(w.held[choose(PLAN, w.held.size())]); if (choose(PLAN, 3) == 2) step(); }
  progress(); reactor_loop(); probe("loop_ended");
  quiesce();
  for (Cl *c : w.cl) if (c->connected) { parse(c); if (!c->w.closed && !c->w.garbage) SC(P19, c->w.eof || c->w.reset || c->w.s->dead, "server-close-peer", "client %d sees no end of the connection after the server was destructed", c->id); }
  CHECK(fd_count() == base, "server-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "server-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  for (Cl *c : w.cl) c->w.destroy();
  CHECK(ssl_live == ssl, "server-ssl-leak", "%lld TLS sessions left", (long long) (ssl_live - ssl));
  reactor_destruct();
}
//                    self tls bad gone body    reqs cl delay hold close shut faults steps slow handoff bursts
void r16() { run_server({P16, 25, 0, 8, 20000, 12, 4, 40, 0, 0, 0, false, false, true, true, 0}); }
void r17() { run_server({P17, 25, 60, 4, 60000, 5, 4, 40, 0, 4, 0, false, false, true, false, 0}); }
void r18() { run_server({P18, 25, 10, 35, 20000, 5, 4, 75, 1, 40, 6, false, false, false, true, 0}); }
void r19() { run_server({P19, 25, 5, 10, 60000, 5, 4, 60, 1, 8, 45, false, false, true, true, 3}); }
void r20() { run_server({P20, 15, 0, 10, 2000, 2, 4, 20, 0, 0, 0, true, false, false, false, 40}); }
void r21() { run_server({P21, 15, 8, 0, 3000, 5, 3, 30, 0, 0, 0, false, true, false, true, 0}); }
void r23() { run_server({P23, 25, 0, 8, 3000000, 40, 3, 30, 0, 0, 0, false, false, true, false, 0}); }
Reg g16("C16", "server_pipeline", r16), g17("C17", "server_malformed", r17), g18("C18", "server_handles", r18), g19("C19", "server_shutdown", r19), g20("C20", "server_accept", r20), g21("C21", "server_head", r21), g23("C23", "server_large", r23);
}
