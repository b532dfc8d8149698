// C26 opening sockets, C27 transfers of strings
#include "scen.h"
#include "internal.h"
#include <netdb.h>
#include <fcntl.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <sys/mman.h>
#include <sys/syscall.h>
using namespace sim;
extern "C" int sim_accept4(int, struct sockaddr *, socklen_t *, int);

// ------------------------------------------------------------------ C26
namespace {
struct L { int fd; server *s; std::string addr; u32 got = 0; };
struct AC { int fd; stream *s; bool closed = false, refused = false, wrote = false; Sock *sk; Wire w; bool answered = false, accepted = false; std::string in; };
struct OW { std::vector<L *> ls; std::vector<AC *> cs; std::map<u64, AC *> by_file; std::map<std::string, u32> how; std::vector<Wire *> clients; } *O;
void l_cb(reactor_event *e) { ((L *) e->state)->got++; server_ok((server_request *) e->data, data_null(), data_construct("hello", 5)); }
void c_cb(reactor_event *e)
{
  AC *c = (AC *) e->state;
  CHECK(!c->closed, "net-after-close", "a stream is called again after it was told of the close");
  if (e->type == STREAM_CLOSE) { note("connection %d reported closed", c->fd); c->closed = true; stream_close(c->s); }
  else if (e->type == STREAM_READ) { data d = stream_read(c->s); c->in.append((const char *) data_base(d), data_size(d)); stream_consume(c->s, data_size(d)); }
}
extern "C" void sim_SSL_CTX_free(SSL_CTX *);
// a file with certificate or key: real memory behind /proc/self/fd, as OpenSSL opens it itself
struct PemFile { int fd = -1; std::string path; ~PemFile() { if (fd >= 0) { vfs.erase(path); syscall(SYS_close, fd); } } };
void pem_file(PemFile &f, std::string &text, const char *base, const char *other)
{
  text = base;
  switch (choose(PLAN, 8))
  {
  case 1: f.path = "/nonexistent/file"; text = ""; return;
  case 2: text = other; break;                                                           // of another pair, or the other kind of file
  case 3: text.resize(choose(PLAN, text.size())); fault("pem_truncated"); break;
  case 4: { u32 n = 1 + choose(PLAN, 3); while (n--) { size_t o = choose(PLAN, text.size()); text[o] = 32 + choose(PLAN, 95); } fault("pem_damaged"); break; }
  case 5: text = "# a comment\n" + text; break;
  case 6: { size_t o = text.find('\n', 40); text.erase(o + 1, choose(PLAN, 60)); fault("pem_damaged"); break; }
  }
  f.fd = memfd_create("pem", 0); if (f.fd < 0 || syscall(SYS_write, f.fd, text.data(), text.size()) != (ssize_t) text.size()) { perror("memfd"); _exit(3); }
  f.path = "/proc/self/fd/" + std::to_string(f.fd); auto n = std::make_shared<INode>(); n->data.assign(text.begin(), text.end()); vfs[f.path] = n;
}
void context_round()
{
  PemFile cf, kf; std::string ct, kt; u32 pair = choose(PLAN, 2) * 2, o = choose(PLAN, 2);
  pem_file(cf, ct, tls_pem[pair], o ? tls_pem[2 - pair] : tls_pem[pair + 1]); o = choose(PLAN, 2); pem_file(kf, kt, tls_pem[pair + 1], o ? tls_pem[3 - pair] : tls_pem[pair]);
  // the reference: both parse and belong together
  ERR_clear_error();
  BIO *b = BIO_new_mem_buf(ct.data(), ct.size()); X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, (void *) ""); BIO_free(b); b = BIO_new_mem_buf(kt.data(), kt.size()); EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, (void *) ""); BIO_free(b);
  SSL_CTX *ref = SSL_CTX_new(TLS_server_method()); bool ok = x && k && SSL_CTX_use_certificate(ref, x) == 1 && SSL_CTX_use_PrivateKey(ref, k) == 1 && X509_check_private_key(x, k) == 1; SSL_CTX_free(ref); EVP_PKEY_free(k); ERR_clear_error();
  u64 live = ctx_live; size_t fds = fd_count(), heap = lib_blocks();
  SSL_CTX *c = net_ssl_server_context((char *) cf.path.c_str(), (char *) kf.path.c_str());
  note("net_ssl_server_context = %s", c ? "context" : "nothing"); nontrivial();
  CHECK(fd_count() == fds && lib_blocks() == heap, "net-context-leak", "descriptors %s heap %s", fd_list().c_str(), lib_blocks_list().c_str());
  CHECK(ctx_live == live + (c ? 1 : 0), "net-context-leak", "%lld contexts are left after a call that returned %s", (long long) (ctx_live - live), c ? "one" : "none");
  CHECK(!c || ok, "net-context", "a context is made without a certificate and its key"); CHECK(c || !ok, "net-context", "no context is made of a certificate and its key");
  if (c)
  {
    SSL *s = SSL_new(c), *t = SSL_new(tls_cli(choose(PLAN, 4))); BIO *p, *q; BIO_new_bio_pair(&p, 0, &q, 0); SSL_set_bio(s, p, p); SSL_set_bio(t, q, q); SSL_set_accept_state(s); SSL_set_connect_state(t);
    for (int i = 0; i < 10; i++) { SSL_do_handshake(t); SSL_do_handshake(s); }
    auto in = [&](const std::string &f, u32 i) { return f.find(tls_pem[i]) != std::string::npos; }; bool whole = (in(ct, 0) && in(kt, 1)) || (in(ct, 2) && in(kt, 3));      // some damage shows only in use
    if (whole) {
    CHECK(SSL_is_init_finished(s) && SSL_is_init_finished(t), "net-context", "a client cannot connect with the context: %s", ERR_error_string(ERR_peek_error(), nullptr));
    X509 *got = SSL_get1_peer_certificate(t); CHECK(got && !X509_cmp(got, x), "net-context", "the client is shown another certificate"); X509_free(got);
    char m[8]; CHECK(SSL_write(s, "hello", 5) == 5 && SSL_read(t, m, 8) == 5 && !memcmp(m, "hello", 5), "net-context", "the encrypted connection does not deliver");
    }
    SSL_free(s); SSL_free(t); sim_SSL_CTX_free(c); probe("context_used");
  }
  else probe("context_refused");
  X509_free(x); ERR_clear_error();
}
AC *pending_open;
void run_net()
{
  OW w; O = &w; random_env();
  bool fail = choose(CFG, 4) != 0;
  auto knob = [&](u32 &k) { if (fail && choose(CFG, 2)) k = pick(CFG, {100, 500, 1000}); };
  knob(knobs.sock_fail); knob(knobs.bind_fail); knob(knobs.listen_fail); knob(knobs.setsockopt_fail); knob(knobs.connect_fail);
  Knobs kept = knobs;
  u32 err = 0, port = 0, family = 0, type = 0, n = 1, flags = 0, which = 0, protocol = 0, asks = 0; const char *host = nullptr, *service = nullptr; bool asked; static const char *ip[2][4] = {{"127.0.0.1", "0.0.0.0", "10.1.2.3", "192.168.255.255"}, {"::1", "::", "fe80::1", "2001:db8::ffff"}};
  resolve_hook = [&](const char *ho, const char *se, const addrinfo *h, addrinfo **res) -> int {
    asked = true; CHECK((!ho) == (!host) && (!se) == (!service) && (!ho || !strcmp(ho, host)) && (!se || !strcmp(se, service)), "net-hints", "the resolver is asked for another name or service than given");
    CHECK(h->ai_family == (int) family && h->ai_socktype == (int) type && h->ai_protocol == (int) asks && h->ai_flags == (int) flags, "net-hints", "the resolver is asked with other hints than given");
    if (err) { *res = nullptr; return err == 1 ? EAI_NONAME : err == 2 ? EAI_SERVICE : EAI_AGAIN; }
    *res = make_addrinfo(family ? family : AF_INET, type ? type : SOCK_STREAM, flags, port, ip[family == AF_INET6][which], n); for (addrinfo *a = *res; a; a = a->ai_next) a->ai_protocol = protocol; return 0;
  };
  connect_hook = [&](Sock *s, const std::string &k) -> int {
    NetCfg c = random_net(); u64 d = between(NET, 0, pick(NET, {0, 10000, 3000000}));
    u32 how = choose(FAULT, 4);
    if (how == 0) return 0;                                 // to a listener of the library, refused if there is none
    if (how == 1) { after(d, [s, c] { if (s->orphan) return; Sock *p = new Sock; p->is_peer = true; sock_pair(s, p, c); s->connecting = false; AC *a = O->by_file.count(s->id) ? O->by_file[s->id] : nullptr; if (a) { a->accepted = true; a->w.attach(p); a->w.send("world"); } else { Kernel k; peer_close(p); } s->wake(0); }); return 1; }
    int e = how == 2 ? ECONNREFUSED : ETIMEDOUT;
    after(d + (how == 3 ? 1000000000ull : 0), [s, e] { if (s->orphan) return; fault(e == ETIMEDOUT ? "connect_timeout" : "connect_refused"); AC *a = O->by_file.count(s->id) ? O->by_file[s->id] : nullptr; if (a) a->refused = true; s->fail(e); });
    return 1;
  };
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  u32 rounds = 1 + choose(CFG, 10);
  sample("rounds=%u socket=%u bind=%u listen=%u option=%u connect=%u /1000", rounds, knobs.sock_fail, knobs.bind_fail, knobs.listen_fail, knobs.setsockopt_fail, knobs.connect_fail);
  for (u32 r = 0; r < rounds; r++)
  {
    if (choose(PLAN, 5) == 4) { context_round(); continue; }
    bool passive = choose(PLAN, 2); err = choose(PLAN, 6) == 5 ? 1 + choose(PLAN, 3) : 0; port = 1000 + choose(PLAN, 6); static const u32 fam[] = {AF_INET, 0, AF_INET6}; family = fam[choose(PLAN, 3)]; type = pick(PLAN, {SOCK_STREAM, 0, SOCK_SEQPACKET, SOCK_STREAM}); n = 1 + choose(PLAN, 3); which = choose(PLAN, 4); protocol = pick(PLAN, {0, IPPROTO_TCP, 262, IPPROTO_SCTP});
    flags = (passive ? AI_PASSIVE : 0) | (choose(PLAN, 2) ? AI_NUMERICHOST : 0);
    std::string key = "port:" + std::to_string(port); bool tw = choose(FAULT, 4) == 3; if (tw && passive) { time_wait.insert(key); fault("address_in_time_wait"); }
    size_t fds = fd_count(); u64 live = addrinfo_live; asked = false; addrinfo *list; u64 f0 = knobs.setsockopt_fail;
    host = choose(PLAN, 6) == 5 ? nullptr : choose(PLAN, 2) ? "localhost" : "a.host.example"; service = !host || choose(PLAN, 6) < 5 ? choose(PLAN, 2) ? "80" : "https" : nullptr; asks = choose(PLAN, 3) == 2 ? protocol : 0;
    { bool full = asks || choose(PLAN, 2); addrinfo *a = full ? net_resolve_protocol((char *) host, (char *) service, family, type, asks, flags) : net_resolve((char *) host, (char *) service, family, type, flags); CHECK(asked, "net-resolve", "the resolver is not asked"); CHECK((a == nullptr) == (err != 0), "net-resolve", "a lookup that %s returns %s", err ? "failed" : "succeeded", a ? "a list" : "nothing"); list = a; }
    addrinfo first = {}; std::string addr; if (list) { first = *list; addr.assign((const char *) list->ai_addr, list->ai_addrlen); } last_bind.clear(); last_connect.clear();
    int fd = net_socket(list);
    time_wait.clear();
    note("net_socket %s = %d", passive ? "passive" : "active", fd); nontrivial();
    CHECK(addrinfo_live == live, "net-addrinfo", "%lld address lists are left after net_socket (result %d)", (long long) (addrinfo_live - live), fd);
    if (fd < 0)
    {
      CHECK(fd_count() == fds, "net-fd-leak", "a failed net_socket leaves descriptors: %s", fd_list().c_str());
      CHECK(err || fail || (passive && false), "net-refused", "net_socket fails although no call failed");
      continue;
    }
    CHECK(!err, "net-result", "net_socket returns a descriptor for a failed lookup");
    CHECK(fd_count() == fds + 1, "net-fd-leak", "net_socket leaves other descriptors: %s", fd_list().c_str());
    File *f = fd_get(fd); CHECK(f, "net-result", "net_socket returns a descriptor that is not open");
    CHECK(last_socket[0] == first.ai_family && last_socket[1] == first.ai_socktype && last_socket[2] == first.ai_protocol, "net-kind", "a socket of family %d, type %d, protocol %d is made for an address of family %d, type %d, protocol %d", last_socket[0], last_socket[1], last_socket[2], first.ai_family, first.ai_socktype, first.ai_protocol);
    CHECK(passive ? last_bind == addr : last_connect == addr, "net-address", "the socket is %s another address than the one given", passive ? "bound to" : "connected to");
    CHECK(f->nonblock, "net-blocking", "the socket is blocking");
    (void) f0;
    if (passive)
    {
      CHECK(f->kind == File::LISTEN, "net-listen", "the passive socket is not listening");
      Listener *l = (Listener *) f; CHECK(l->addr == key, "net-listen", "the socket listens on %s instead of %s", l->addr.c_str(), key.c_str());
      if (choose(PLAN, 12) == 11 && l->queue.empty())        // a crowd connects before any is accepted: only the system's limit turns some away
      {
        u32 k = pick(PLAN, {20, 150, 20, 150, 300, 20, 1100, 4097}); std::vector<Sock *> ps; u32 q = 0; NetCfg nc = random_net();
        for (u32 i = 0; i < k; i++) { Sock *p = peer_connect(l, nc); if (p) ps.push_back(p), q++; }
        note("%u connect, %u are let in", k, q);
        CHECK(q == k, "net-backlog", "a listening socket turns connections away when %u of %u wait", q, k);
        u32 acc = 0; while (1) { int c = sim_accept4(fd, nullptr, nullptr, SOCK_NONBLOCK); if (c < 0) { if (errno == EINTR) continue; break; } acc++; sim_close(c); }
        CHECK(acc >= k, "net-backlog", "%u of %u connections that waited are accepted", acc, k);
        Kernel kk; for (Sock *p : ps) peer_close(p); probe("crowd");
      }
      L *x = new L{fd, nullptr, key}; w.ls.push_back(x); x->s = (server *) malloc(sizeof(server)); server_construct(x->s, l_cb, x); server_open(x->s, fd, nullptr);
      u32 k = choose(PLAN, 3); while (k--) { Sock *p = peer_connect(l, random_net()); if (p) { Wire *q = new Wire; w.clients.push_back(q); q->attach(p); q->send("GET / HTTP/1.1\r\n\r\n"); } }
    }
    else
    {
      CHECK(f->kind == File::SOCK, "net-connect", "the active socket is not a connection");
      Sock *s = (Sock *) f;
      CHECK(s->connecting || s->connected || s->err || kept.connect_fail || s->dead, "net-connect", "no connection is under way");
      AC *c = new AC; c->fd = fd; c->sk = s; w.cs.push_back(c); w.by_file[s->id] = c; c->refused = !s->connecting && !s->connected;
      c->s = (stream *) malloc(sizeof(stream)); stream_construct(c->s, c_cb, c); stream_open(c->s, fd, STREAM_READ, nullptr);
      if (choose(PLAN, 2)) { stream_write(c->s, data_construct("hello", 5)); stream_flush(c->s); c->wrote = true; }
    }
    u32 st = choose(PLAN, 3); while (st--) step();
  }
  quiesce();
  for (AC *c : w.cs)
  {
    if (c->refused) { CHECK(c->closed, "net-refused-silent", "a connection that failed or was refused is not reported as closed when all is quiet"); probe("refusal_reported"); }
    else if (c->accepted) { CHECK(!c->closed, "net-closed", "an established connection is reported as closed"); CHECK(c->in == "world", "net-usable", "an established connection does not deliver"); if (c->wrote) CHECK(c->w.in == "hello", "net-usable", "an established connection does not send"); probe("connection_used"); }
  }
  for (Wire *q : w.clients) { CHECK(q->in.size() > 5 && q->in.compare(q->in.size() - 5, 5, "hello") == 0, "net-usable", "a listening socket does not accept"); probe("listener_used"); }
  while (!w.cs.empty()) { AC *c = w.cs.back(); w.cs.pop_back(); stream_destruct(c->s); free(c->s); c->w.destroy(); }
  for (L *x : w.ls) { server_destruct(x->s); free(x->s); }
  for (Wire *q : w.clients) q->destroy();
  progress(); reactor_loop();
  CHECK(fd_count() == base, "net-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "net-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  connect_hook = nullptr; resolve_hook = nullptr;
  reactor_destruct();
}
Reg r26("C26", "net", run_net);

// ------------------------------------------------------------------ C27
string make_string(const std::string &d) { string s = string_null(); size_t o = 0; while (o < d.size()) { size_t n = 1 + size_pick(PLAN, d.size() - o - 1); s = string_append_data(s, data_construct(d.data() + o, n)); o += n; } if (choose(PLAN, 6) == 5) { u32 n = 1 + choose(PLAN, 300); bool front = choose(PLAN, 2); std::string x(n, 'x'); s = string_insert_data(s, front ? 0 : d.size(), data_construct(x.data(), n)); s = string_erase_data(s, data_construct(s + (front ? 0 : d.size()), n)); probe(d.empty() ? "emptied_string" : "shortened_string"); } return s; }
std::string content(u32 max) { std::string d; u32 k = choose(PLAN, 3); static u64 id; id = choose(PLAN, 1 << 20); fill(d, id, 0, size_pick(PLAN, max)); if (k == 1) for (auto &ch : d) ch = (ch & 3) ? ch : 0; if (k == 2) std::fill(d.begin(), d.end(), 0); return d; }
void run_string()
{
  random_env(); preempt_scale = choose(CFG, 4);
  file_faults.short_reads = choose(CFG, 2); file_faults.short_writes = choose(CFG, 2); knobs.short_xfer = pick(CFG, {0, 300, 1000});
  size_t base = fd_count(), heap = lib_blocks(); u32 rounds = 1 + choose(CFG, 8), max = pick(CFG, {200, 20000, 9000, 100000});
  sample("rounds=%u max=%u short reads %d writes %d interrupted %u", rounds, max, file_faults.short_reads, file_faults.short_writes, knobs.short_xfer);
  const char *paths[] = {"/sim/a", "/sim/b", "/sim/link", "/sim/none"};
  struct Ref : std::map<std::string, std::string> { static std::string k(const char *p) { return !strcmp(p, "/sim/link") ? "/sim/a" : p; } std::string &operator[](const char *p) { return std::map<std::string, std::string>::operator[](k(p)); } size_t count(const char *p) { return std::map<std::string, std::string>::count(k(p)); } } ref;
  for (int i = 0; i < 2; i++) { auto n = std::make_shared<INode>(); std::string d = content(max); n->data.assign(d.begin(), d.end()); vfs[paths[i]] = n; ref[paths[i]] = d; }
  vfs["/sim/link"] = vfs["/sim/a"]; vfs_links.insert("/sim/link");
  for (u32 r = 0; r < rounds; r++)
  {
    nontrivial();
    switch (choose(PLAN, 6))
    {
    case 5:       // a named pipe, saved to and loaded from
    {
      bool save = choose(PLAN, 2); PipeR *pr; PipeW *pw; pipe_pair(&pr, &pw, pick(NET, {16, 1, 2}), pick(NET, {4096, 100, 1000})); pr->nonblock = pw->nonblock = false;
      int other = fd_install(save ? (File *) pr : (File *) pw); auto n = std::make_shared<INode>(); vfs["/sim/fifo"] = n; bool opened = false;
      n->open_special = [&](int fl) -> long { File *f = save ? (File *) pw : (File *) pr; if (opened || (fl & O_ACCMODE) != (save ? O_WRONLY : O_RDONLY)) return -EACCES; opened = true; f->nonblock = fl & O_NONBLOCK; return fd_install(f); };
      std::string d = content(max), in; bool slow = choose(NET, 2), ok;
      if (save)
      {
        string s = make_string(d);
        Task *t = spawn([&] { std::vector<char> b(5000); while (1) { ssize_t k = sim_read(other, b.data(), 1 + choose(NET, 5000)); if (k <= 0) break; in.append(b.data(), k); if (slow) sim_usleep(choose(NET, 300)); } }, false, "reader");
        note("save %zu bytes to a named pipe", d.size()); int e = string_save(s, "/sim/fifo"); if (!opened) { delete pw; } join(t); CHECK(e == 0, "string-save-result", "saving to a named pipe returns %d", e); ok = in == d; string_free(s);
      }
      else
      {
        Task *t = spawn([&] { size_t o = 0; while (o < d.size()) { ssize_t k = sim_write(other, d.data() + o, std::min<size_t>(d.size() - o, 1 + size_pick(NET, 9000))); if (k <= 0) break; o += k; if (slow) sim_usleep(choose(NET, 300)); } sim_close(other); other = -1; }, false, "writer");
        note("load %zu bytes from a named pipe", d.size()); string t2 = string_load("/sim/fifo"); ok = string_size(t2) == d.size() && !memcmp(t2, d.data(), d.size()); join(t); string_free(t2);
      }
      CHECK(ok, save ? "string-save" : "string-load", "%zu bytes are not transferred as they are through a named pipe", d.size()); probe("named_pipe");
      if (other >= 0) sim_close(other); vfs.erase("/sim/fifo"); break;
    }
    case 0: case 1:
    {
      const char *p = paths[choose(PLAN, 8) == 7 ? 3 : choose(PLAN, 3)]; std::string d = content(max); string s = make_string(d); size_t before = ref.count(p) ? ref[p].size() : 0;
      int e = string_save(s, p); note("save %zu bytes to %s = %d", d.size(), p, e);
      if (!ref.count(p)) { CHECK(e == -1, "string-save-result", "saving to a file that cannot be opened returns %d", e); vfs.erase(p); }
      else
      {
        CHECK(e == 0, "string-save-result", "saving returns %d", e);
        auto &got = vfs[p]->data;
        CHECK(got.size() == d.size() && !memcmp(got.data(), d.data(), d.size()), "string-save", "after saving %zu bytes over %zu the file holds %zu bytes or others", d.size(), before, got.size());
        ref[p] = d; if (d.size() < before) probe("shorter_than_before");
      }
      CHECK(string_size(s) == d.size() && !memcmp(s, d.data(), d.size()), "string-changed", "saving changed the string");
      string_free(s);
      if (choose(PLAN, 2) && ref.count(p)) { string t = string_load(p); CHECK(string_size(t) == d.size() && !memcmp(t, d.data(), d.size()), "string-load", "loading what was saved gives %zu bytes or others instead of %zu", string_size(t), d.size()); CHECK(t[string_size(t)] == 0, "string-load", "the string is not terminated"); string_free(t); }
      break;
    }
    case 2:
    {
      const char *p = paths[choose(PLAN, 8) == 7 ? 3 : choose(PLAN, 3)]; string t = string_load(p);
      if (!ref.count(p)) CHECK(string_empty(t), "string-load", "loading a file that does not exist gives %zu bytes", string_size(t));
      else CHECK(string_size(t) == ref[p].size() && !memcmp(t, ref[p].data(), ref[p].size()), "string-load", "loading %zu bytes gives %zu bytes or others", ref[p].size(), string_size(t));
      string_free(t); break;
    }
    case 3:       // write to a slow pipe
    {
      PipeR *pr; PipeW *pw; pipe_pair(&pr, &pw, pick(NET, {16, 1, 2}), pick(NET, {4096, 100, 1000})); pr->nonblock = pw->nonblock = false; int rfd = fd_install(pr), wfd = fd_install(pw);
      std::string d = content(max), in; string s = make_string(d); u32 chunk = pick(NET, {65536, 100, 5000}); bool slow = choose(NET, 2);
      Task *t = spawn([&] { std::vector<char> b(chunk); while (1) { ssize_t n = sim_read(rfd, b.data(), 1 + choose(NET, chunk)); if (n <= 0) break; in.append(b.data(), n); if (slow) sim_usleep(choose(NET, 300)); } }, false, "reader");
      note("write %zu bytes to a pipe", d.size());
      string_write(s, wfd); sim_close(wfd); join(t); sim_close(rfd);
      CHECK(in == d, "string-write", "writing %zu bytes transferred %zu bytes or others", d.size(), in.size());
      string_free(s); break;
    }
    case 4:       // read a slow pipe to its end
    {
      PipeR *pr; PipeW *pw; pipe_pair(&pr, &pw, pick(NET, {16, 1, 2}), pick(NET, {4096, 100, 1000})); pr->nonblock = pw->nonblock = false; int rfd = fd_install(pr), wfd = fd_install(pw);
      std::string d = content(max); bool slow = choose(NET, 2);
      Task *t = spawn([&] { size_t o = 0; while (o < d.size()) { ssize_t n = sim_write(wfd, d.data() + o, std::min<size_t>(d.size() - o, 1 + size_pick(NET, 9000))); if (n <= 0) break; o += n; if (slow) sim_usleep(choose(NET, 300)); } sim_close(wfd); }, false, "writer");
      note("read %zu bytes from a pipe", d.size());
      string s = string_read(rfd); join(t); sim_close(rfd);
      CHECK(string_size(s) == d.size() && !memcmp(s, d.data(), d.size()), "string-read", "reading %zu bytes gives %zu bytes or others", d.size(), string_size(s));
      string_free(s); break;
    }
    }
    CHECK(fd_count() == base, "string-fd-leak", "descriptors left: %s", fd_list().c_str());
    CHECK(lib_blocks() == heap, "string-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
    progress();
  }
}
Reg r27("C27", "string", run_string);
}
