// C24: message heads parsed from streams as the bytes arrive
#include "scen.h"
#include "internal.h"
extern "C" {
#include "picohttpparser/picohttpparser.h"
}
using namespace sim;

namespace {
struct Head { std::string wire; bool bad = false; std::string method, target; int code = 0; std::string reason; std::vector<std::pair<std::string, std::string>> f; };
struct Res { ssize_t n = -2; int code = 0; std::string method, target; std::vector<std::pair<std::string, std::string>> f; size_t count = 0;
  bool operator==(const Res &o) const { return n == o.n && (n < 0 || (code == o.code && method == o.method && target == o.target && f == o.f)); } };
struct PW { bool resp, free = false; size_t max; std::vector<Head> heads; std::string script; size_t cur = 0, start = 0, seen = 0, checked = 0; stream *s; Wire w; bool dead = false; size_t fed = 0; bool eof = false; size_t seen_now() { return data_size(stream_read(s)); } } *H;
char any(const char *set) { size_t n = strlen(set); return set[choose(PLAN, n)]; }
std::string word(u32 n, bool token)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~", b[] = "/?=:;,@()[]{}<>\"\\";
  std::string s; u64 h = choose(PLAN, 1 << 16); for (u32 i = 0; i < n; i++) { h = mix(h, i); u32 k = h % 100; s += token || k < 80 ? a[(h >> 8) % (sizeof a - 1)] : k < 97 ? b[(h >> 8) % (sizeof b - 1)] : (char) (0x80 + (h >> 8) % 0x80); } return s;
}
std::string value(u32 n) { std::string s; u64 h = choose(PLAN, 1 << 16); for (u32 i = 0; i < n; i++) { h = mix(h, i); u32 k = h % 100; s += k < 10 ? ' ' : k < 13 ? '\t' : k < 95 ? (char) (33 + (h >> 8) % 94) : (char) (0x80 + (h >> 8) % 0x80); } while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); return s; }
std::string eol() { return choose(PLAN, 6) == 5 ? "\n" : "\r\n"; }
std::string sp(u32 lo) { return std::string(lo + (choose(PLAN, 5) == 4 ? 1 + size_pick(PLAN, 20) : 0), ' '); }
u32 len(u32 small) { u32 k = choose(PLAN, 8); return k < 6 ? 1 + choose(PLAN, small) : k == 6 ? 1 + choose(PLAN, 40) : 1 + size_pick(PLAN, choose(PLAN, 3) == 2 ? choose(PLAN, 24) == 23 ? 150000 : 6000 : 200); }
Head good(u32 max_fields)
{
  Head h;
  if (H->resp)
  {
    h.code = 100 + choose(PLAN, 900); u32 k = choose(PLAN, 4); h.reason = k == 3 ? "" : k == 2 ? value(len(30)) : "OK";
    h.wire = std::string("HTTP/1.") + any("1092") + sp(1) + std::to_string(h.code);
    if (!h.reason.empty() || choose(PLAN, 2)) h.wire += sp(1) + h.reason;
    h.wire += eol();
  }
  else
  {
    h.method = choose(PLAN, 2) ? "GET" : word(len(8), true); h.target = "/" + word(len(20), false);
    u32 k = choose(PLAN, 8); if (k == 6) h.wire = "\r\n"; else if (k == 7) h.wire = "\n";
    h.wire += h.method + sp(1) + h.target + sp(1) + "HTTP/1." + any("1092") + eol();
  }
  u32 nf = std::min<u32>(max_fields, pick(PLAN, {2, 0, 1, 5, max_fields, 16}));
  for (u32 i = 0; i < nf; i++)
  {
    bool fold = i && choose(PLAN, 10) == 9; std::string v = choose(PLAN, 5) == 4 ? "" : value(len(12)), trail = choose(PLAN, 6) == 5 ? std::string(1 + choose(PLAN, 3), any(" \t")) : "";
    if (fold) { std::string lead(1 + choose(PLAN, 2), any(" \t")); if (v.empty()) v = "x"; h.wire += lead + v + trail + eol(); h.f.push_back({"", lead + v}); }
    else { std::string n = word(len(10), true); h.wire += n + ":" + (choose(PLAN, 3) == 2 ? std::string(choose(PLAN, 4), any(" \t")) : " ") + v + trail + eol(); h.f.push_back({n, v}); }
  }
  h.wire += eol();
  return h;
}
// a head with one defect that makes it malformed wherever it is cut off afterwards
Head bad()
{
  Head h = good(std::min<size_t>(H->max, 4)); h.bad = true; std::string &w = h.wire; size_t line = w.find('\n', w[0] == '\r' ? 2 : w[0] == '\n' ? 1 : 0);
  std::string start = w.substr(0, line + 1), rest = w.substr(line + 1);
  static const char ctl[] = "\x01\x02\x07\x0b\x1f\x7f"; std::string c(1, any(ctl));
  switch (choose(PLAN, 9))
  {
  case 0: { std::string x; for (size_t i = 0; i < H->max + 1; i++) x += "N" + std::to_string(i) + ": v\r\n"; w = start + x + "\r\n"; break; }
  case 1: w = start + "bad name: v\r\n\r\n"; break;
  case 2: w = start + ": no name\r\n\r\n"; break;
  case 3: w = start + "NoColon\r\n\r\n"; break;
  case 4: w = start + "Name: a" + c + "b\r\n\r\n"; break;
  case 5: { size_t v = w.find("HTTP/1."); w[v + (choose(PLAN, 2) ? 5 : 7)] = 'x'; break; }
  case 6: if (H->resp) { size_t v = w.find("HTTP/1."); size_t d = w.find_first_of("0123456789", v + 9); w[d + choose(PLAN, 3)] = 'x'; } else { size_t v = w.find(h.method); w.insert(v + choose(PLAN, h.method.size()), c); } break;
  case 7: if (H->resp) { size_t v = w.find("HTTP/1."); size_t d = w.find_first_of("0123456789", v + 9); w.insert(d + 3, "x"); } else { size_t v = w.find(h.target, h.method.size()); w.insert(v + choose(PLAN, h.target.size()), c); } break;
  case 8: w = start + "Name: v\rx\r\n\r\n"; break;
  }
  return h;
}
Res parse_at(stream *s, const char *lo, size_t n, bool data_form)
{
  Res r; http_field f[64]; size_t count = H->max; struct data m = data_null(), t = data_null(); int code = -1;
  memset((void *) f, 0xA5, sizeof f);
  if (H->resp) r.n = http_read_response(s, &code, &t, f, &count);
  else if (data_form) r.n = http_read_request_data(data_construct(lo, n), &m, &t, f, &count);
  else r.n = http_read_request(s, &m, &t, f, &count);
  if (r.n < 0) return r;
  CHECK((size_t) r.n <= n, "http-consumed", "%zd bytes of %zu are consumed", r.n, n);
  CHECK(count <= H->max, "http-fields", "%zu fields are returned, there was room for %zu", count, H->max);
  auto str = [&](struct data d, const char *what) { const char *b = (const char *) data_base(d); size_t z = data_size(d); CHECK(!z || (b >= lo && b + z <= lo + r.n), "http-outside", "the %s returned lies outside the bytes of the message", what); return std::string(b ? b : "", z); };
  r.code = code; if (!H->resp) r.method = str(m, "method"); r.target = str(t, H->resp ? "status" : "target"); r.count = count;
  for (size_t i = 0; i < count; i++) r.f.push_back({str(f[i].name, "field name"), str(f[i].value, "field value")});
  return r;
}
void p_check()
{
  while (1)
  {
    struct data d = stream_read(H->s); size_t n = data_size(d); const char *b = (const char *) data_base(d);
    if (H->free && !n) return;
    if (!H->free && H->cur >= H->heads.size()) { CHECK(n == 0, "http-rest", "%zu bytes are left", n); return; }
    const Head &h = H->heads[std::min(H->cur, H->heads.size() - 1)];
    CHECK(H->start + n <= H->script.size() && !memcmp(b ? b : "", H->script.data() + H->start, n), "http-bytes", "the stream holds other bytes than were sent");
    Res r = parse_at(H->s, b, n, false);
    // the same bytes in a block of exactly their size
    char *x = (char *) malloc(n ? n : 1); if (n) memcpy(x, b, n); stream fake; memset((void *) &fake, 0, sizeof fake); fake.input.data = x; fake.input.size = fake.input.capacity = n;
    char *y = (char *) malloc(n + 64); memset(y, any(" \r\nHG:/1\x00"), n + 64); if (n) memcpy(y, b, n); stream fake2; memset((void *) &fake2, 0, sizeof fake2); fake2.input.data = y; fake2.input.size = n; fake2.input.capacity = n + 64;
    Res q = parse_at(&fake, x, n, choose(PLAN, 2)), q2 = parse_at(&fake2, y, n, false);
    CHECK(r == q && r == q2, "http-depends-on-memory", "the same %zu bytes parse differently depending on what lies behind them (%zd, %zd, %zd)", n, r.n, q.n, q2.n);
    if (H->free)
    {
      RefHead g = ref_head(H->resp, std::string(b ? b : "", n), H->max);
      CHECK(r.n == g.n, "http-grammar", "%zu bytes give %zd, by the grammar it is %zd: %.200s", n, r.n, g.n, std::string(b, std::min<size_t>(n, 200)).c_str());
      if (r.n == -1) H->dead = true; else CHECK(!H->dead, "http-malformed-unstable", "a head reported as malformed is reported as %zd later", r.n);
      if (r.n >= 0)
      {
        CHECK(H->resp ? r.code == g.code && r.target == g.target : r.method == g.method && r.target == g.target, "http-start-line", "the start line is parsed as '%.40s' '%.40s' %d", r.method.c_str(), r.target.c_str(), r.code);
        CHECK(r.f == g.f, "http-field-values", "the fields of a head differ from the ones sent (%zu returned, %zu sent)", r.f.size(), g.f.size());
        stream_consume(H->s, r.n); H->start += r.n; probe("damaged_head_accepted");
      }
      else if (r.n == -1) { probe("damaged_head_refused"); nontrivial(); }
      free(x); free(y);
      if (r.n > 0 && n > (size_t) r.n) continue;
      return;
    }
    if (!h.bad)
    {
      if (n < h.wire.size()) CHECK(r.n == -2, "http-incomplete", "the first %zu of %zu bytes of a head give %zd instead of incomplete", n, h.wire.size(), r.n);
      else
      {
        CHECK(r.n == (ssize_t) h.wire.size(), "http-length", "a complete head of %zu bytes (%zu received) gives %zd", h.wire.size(), n, r.n);
        CHECK(H->resp ? r.code == h.code && r.target == h.reason : r.method == h.method && r.target == h.target, "http-start-line", "the start line is parsed as '%.40s' '%.40s' %d", r.method.c_str(), r.target.c_str(), r.code);
        CHECK(r.f == h.f, "http-field-values", "the fields of a head differ from the ones sent (%zu returned, %zu sent)", r.f.size(), h.f.size());
        if (!h.f.empty()) { http_field f[64]; for (size_t i = 0; i < r.f.size(); i++) f[i] = http_field_construct(data_construct(r.f[i].first.data(), r.f[i].first.size()), data_construct(r.f[i].second.data(), r.f[i].second.size()));
          std::string k = h.f[choose(PLAN, h.f.size())].first; std::string kk = k; for (auto &ch : kk) ch = choose(PLAN, 2) ? toupper(ch) : tolower(ch); size_t want = 0; auto ci = [](const std::string &a, const std::string &b) { return a.size() == b.size() && !strncasecmp(a.data(), b.data(), a.size()); }; while (!ci(h.f[want].first, k)) want++;
          struct data v = http_field_lookup(f, r.f.size(), data_construct(kk.data(), kk.size())); CHECK(std::string((const char *) data_base(v), data_size(v)) == h.f[want].second, "http-lookup", "looking up a field gives another value"); }
        stream_consume(H->s, r.n); H->start += r.n; H->cur++; nontrivial(); probe(n == (size_t) r.n ? "head_exactly_received" : "more_received");
        continue;
      }
    }
    else
    {
      CHECK(r.n < 0, "http-malformed-accepted", "a malformed head is accepted as %zd bytes: %s", r.n, h.wire.substr(0, 100).c_str());
      if (n >= h.wire.size()) { CHECK(r.n == -1, "http-malformed", "a malformed head of %zu bytes (%zu received) gives incomplete", h.wire.size(), n); probe("malformed"); }
      if (H->dead) CHECK(r.n == -1, "http-malformed-unstable", "a head reported as malformed is reported as incomplete later");
      if (r.n == -1) { H->dead = true; nontrivial(); }
    }
    free(x); free(y);
    return;
  }
}
void p_cb(reactor_event *e)
{
  if (e->type == STREAM_READ) { H->seen = data_size(stream_read(H->s)); p_check(); }
  else if (e->type == STREAM_CLOSE) { H->eof = true; stream_close(H->s); }
}
void p_feed()
{
  if (H->fed >= H->script.size() || H->w.closed) return;
  size_t left = H->script.size() - H->fed, n; u32 k = choose(NET, 4); n = k == 0 ? left : k == 1 ? 1 : 1 + size_pick(NET, std::min<size_t>(left - 1, k == 2 ? 12 : 500));
  H->w.send(H->script.substr(H->fed, n)); H->fed += n;
  if (H->fed < H->script.size()) after(between(NET, 1, pick(NET, {1, 20000, 1000000})), [] { p_feed(); });
}
void run_parse()
{
  PW w; H = &w; random_env(); w.resp = choose(CFG, 2); w.max = pick(CFG, {16, 16, 1, 3, 64, 8});
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  u32 n = 1 + choose(CFG, 5); for (u32 i = 0; i < n; i++) w.heads.push_back(good(w.max));
  if (choose(CFG, 3) == 2) w.heads.push_back(bad());
  w.free = choose(CFG, 3) == 2;
  if (w.free && w.heads.size() > 2) w.heads.resize(1 + choose(CFG, 2));
  for (auto &h : w.heads) w.script += w.free ? damage(h.wire, choose(PLAN, 4)) : h.wire;
  if (w.script.empty()) w.script = "\r";
  sample("%s heads=%zu bytes=%zu fields<=%zu", w.resp ? "responses" : "requests", w.heads.size(), w.script.size(), w.max);
  NetCfg c = random_net(true); if (choose(NET, 2)) c = NetCfg(); bool tls = choose(CFG, 8) == 7; if (tls) c.unix_domain = false; int fd; Sock *p = new_peer_pair(c, &fd); u32 var = choose(CFG, 4);
  w.s = (stream *) malloc(sizeof(stream)); stream_construct(w.s, p_cb, nullptr); stream_open(w.s, fd, STREAM_READ, tls ? tls_srv(var) : nullptr);
  w.w.attach(p, tls, false, var); at(mono + 1, [] { p_feed(); });
  quiesce();
  size_t good_heads = w.heads.size() - (w.heads.back().bad ? 1 : 0);
  if (!w.eof && w.free) CHECK(w.fed == w.script.size() && w.start + w.seen_now() == w.script.size(), "http-missed", "%zu bytes were consumed and %zu are held of %zu when all is quiet", w.start, w.seen_now(), w.script.size());
  else if (!w.eof) { CHECK(w.cur == good_heads, "http-missed", "%zu of %zu heads are parsed when all is quiet", w.cur, good_heads); if (w.heads.back().bad) CHECK(w.dead, "http-malformed-missed", "a malformed head is not reported when all is quiet"); }
  stream_destruct(w.s); free(w.s); w.w.destroy(); progress(); reactor_loop();
  CHECK(fd_count() == base && lib_blocks() == heap, "http-leak", "descriptors %s heap %s", fd_list().c_str(), lib_blocks_list().c_str());
  reactor_destruct();
}
Reg r24("C24", "http_parse", run_parse, 5);

// a body sent in chunks, decoded with every arrival
struct CW { stream *s; Wire w; phr_chunked_decoder d; std::string script, out, body; size_t fed = 0, got = 0, bad = ~0ull, end = ~0ull; bool done = false, eof = false; std::vector<std::pair<size_t, size_t>> data; } *K;
size_t decoded_at(size_t n) { size_t z = 0; for (auto &c : K->data) if (n > c.first) z += std::min(n - c.first, c.second); return z; }
void k_take(const char *b, size_t n)
{
  size_t was = K->got; K->got += n; if (K->done) return;
  size_t guard = 1 + choose(PLAN, 40); char *x = (char *) malloc(n + guard), fill = any("0\r\nf"); memcpy(x, b, n); memset(x + n, fill, guard);
  size_t z = n; ssize_t r = phr_decode_chunked(&K->d, x, &z);
  for (size_t i = 0; i < guard; i++) CHECK(x[n + i] == fill, "chunked-outside", "a byte behind the %zu received is written", n);
  CHECK(z <= n, "chunked-size", "%zu bytes decode to %zu", n, z);
  K->out.append(x, z);
  CHECK(K->out == K->body.substr(0, K->out.size()), "chunked-bytes", "the decoded body differs from the one sent within the first %zu bytes", K->out.size());
  size_t at = std::min(K->got, K->end);
  if (K->got > K->bad) { CHECK(r == -1, "chunked-malformed", "a malformed body gives %zd", r); K->done = true; probe("chunked_malformed"); nontrivial(); }
  else
  {
    CHECK(K->out.size() == decoded_at(at), "chunked-length", "%zu bytes of a chunked body decode to %zu, %zu were sent", K->got, K->out.size(), decoded_at(at));
    if (K->got < K->end) { CHECK(r == -2, "chunked-incomplete", "an unfinished chunked body gives %zd after %zu of %zu bytes", r, K->got, K->end);
      bool in = false; for (auto &c : K->data) in = in || (K->got >= c.first && K->got < c.first + c.second); CHECK(!!phr_decode_chunked_is_in_data(&K->d) == in, "chunked-in-data", "after %zu bytes the decoder %s in the data of a chunk", K->got, in ? "is said not to be" : "is said to be"); }
    else { CHECK(r == (ssize_t) (K->got - K->end), "chunked-rest", "%zd bytes are said to follow a chunked body, %zu do", r, K->got - K->end);
      CHECK(z + r <= n && std::string(x + z, r) == K->script.substr(K->end, r), "chunked-rest-bytes", "the bytes following a chunked body are changed"); K->done = true; probe("chunked_done"); nontrivial(); }
  }
  (void) was; free(x);
}
void k_cb(reactor_event *e)
{
  if (e->type == STREAM_READ)
  {
    struct data d = stream_read(K->s); size_t n = data_size(d), o = 0; const char *b = (const char *) data_base(d);
    CHECK(K->got + n <= K->script.size() && !memcmp(b, K->script.data() + K->got, n), "http-bytes", "the stream holds other bytes than were sent");
    while (o < n) { size_t k = choose(PLAN, 3) ? n - o : 1 + size_pick(PLAN, n - o - 1); k_take(b + o, k); o += k; }
    stream_consume(K->s, n);
  }
  else if (e->type == STREAM_CLOSE) { K->eof = true; stream_close(K->s); }
}
void k_feed()
{
  if (K->fed >= K->script.size() || K->w.closed) return;
  size_t left = K->script.size() - K->fed, k = choose(NET, 4), n = k == 0 ? left : k == 1 ? 1 : 1 + size_pick(NET, std::min<size_t>(left - 1, k == 2 ? 12 : 500));
  K->w.send(K->script.substr(K->fed, n)); K->fed += n;
  if (K->fed < K->script.size()) after(between(NET, 1, pick(NET, {1, 20000, 1000000})), [] { k_feed(); });
}
std::string hex(u64 v) { char t[32]; snprintf(t, sizeof t, choose(PLAN, 2) ? "%llx" : "%llX", (unsigned long long) v); std::string s = t; if (choose(PLAN, 6) == 5) s.insert(0, std::string(choose(PLAN, 17 - s.size()), '0')); return s; }
void run_chunked()
{
  CW w; K = &w; random_env(); memset(&w.d, 0, sizeof w.d); bool trailer = choose(CFG, 2); w.d.consume_trailer = trailer;
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  u32 n = pick(CFG, {2, 0, 1, 4, 12}); int defect = choose(CFG, 4) == 3 ? choose(CFG, 5) : -1; u32 where = n ? choose(CFG, n) : 0; std::string &s = w.script;
  auto ext = [&] { std::string e; if (choose(PLAN, 4) == 3) e = ";" + value(len(12)); return e; };
  bool huge = false;
  for (u32 i = 0; i < n && w.bad == ~0ull && !huge; i++)
  {
    std::string data; u32 z = pick(CFG, {3, 1, 9, 16, 255, 4096}); if (choose(PLAN, 3)) z = 1 + size_pick(PLAN, choose(PLAN, 20) == 19 ? 100000 : 2000); data.reserve(z); u64 h = choose(PLAN, 1 << 16); for (u32 j = 0; j < z; j++) { h = mix(h, j); data += h % 4 ? (char) (h >> 8) : "\r\n0;"[(h >> 8) % 5]; }
    if ((int) i == (int) where && defect == 0) { w.bad = s.size(); s += any("gG \r\n;-x"); s += "\r\n" + data + "\r\n"; break; }
    if ((int) i == (int) where && defect == 1) { s += std::string(16, any("0")); w.bad = s.size(); s += any("1f0"); s += "\r\n" + data + "\r\n"; break; }
    if ((int) i == (int) where && defect == 3) { s += std::string(1, any("f8")) + "fffffffffffffff\r\n"; w.data.push_back({s.size(), ~0ull - s.size() - 1}); s += data; w.body += data; huge = true; break; }
    s += hex(data.size()) + ext() + "\r\n"; w.data.push_back({s.size(), data.size()}); s += data; w.body += data;
    if ((int) i == (int) where && defect == 2) { if (choose(PLAN, 2)) s += "\r"; w.bad = s.size(); s += any("x 05g"); s += "\r\n"; break; }
    s += "\r\n";
  }
  if (w.bad == ~0ull && !huge)
  {
    s += std::string(1 + (choose(PLAN, 5) == 4 ? choose(PLAN, 15) : 0), '0') + ext() + "\r\n";
    if (trailer) { u32 t = choose(PLAN, 4); for (u32 i = 0; i < (t == 3 ? 2 : t == 2); i++) s += word(len(8), true) + ": " + value(len(12)) + "\r\n"; s += "\r\n"; }
    w.end = s.size();
    u32 t = choose(PLAN, 4); if (t == 1) s += "GET / HTTP/1.1\r\n\r\n"; else if (t == 2) s += word(len(30), false); else if (t == 3) s += "\r\n";
  }
  sample("chunks=%u bytes=%zu body=%zu defect=%d trailer=%d", n, s.size(), w.body.size(), defect, trailer);
  NetCfg c = random_net(true); if (choose(NET, 2)) c = NetCfg(); bool tls = choose(CFG, 8) == 7; if (tls) c.unix_domain = false; int fd; Sock *p = new_peer_pair(c, &fd); u32 var = choose(CFG, 4);
  w.s = (stream *) malloc(sizeof(stream)); stream_construct(w.s, k_cb, nullptr); stream_open(w.s, fd, STREAM_READ, tls ? tls_srv(var) : nullptr);
  w.w.attach(p, tls, false, var); at(mono + 1, [] { k_feed(); });
  quiesce();
  if (!w.eof) CHECK(w.got == w.script.size(), "http-missed", "%zu bytes of %zu were received when all is quiet", w.got, w.script.size());
  stream_destruct(w.s); free(w.s); w.w.destroy(); progress(); reactor_loop();
  CHECK(fd_count() == base && lib_blocks() == heap, "http-leak", "descriptors %s heap %s", fd_list().c_str(), lib_blocks_list().c_str());
  reactor_destruct();
}
Reg r24b("C24", "http_chunked", run_chunked, 2);
}
