// Driver: batches of forked runs, gating, minimisation, replay.
#include "kernel.h"
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <openssl/rand.h>
#include <unordered_set>

extern "C" {
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:quarantine_size_mb=32:max_malloc_fill_size=65536:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0"; }
void __asan_set_error_report_callback(void (*)(const char *));
const char *__asan_get_report_description();
int __asan_report_present();
void __sanitizer_set_death_callback(void (*)(void));
}

namespace sim {
extern bool active; void cov_set(uint8_t *); u32 cov_count();
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(const char *p, const char *n, void (*f)(), u32 w) { scenarios().push_back({p, n, f, w}); }
static std::string g_prop; const char *current_property() { return g_prop.c_str(); }
void tls_init(); 
void __asan_off() {}
static u64 rand_state;
}
using namespace sim;

static void on_asan(const char *rep)
{
  if (!sh || sh->status != ST_NONE) return;
  const char *d = __asan_get_report_description();
  char cls[120]; snprintf(cls, sizeof cls, "memory:%s", d && *d ? d : "error");
  const char *nl = strstr(rep, "ERROR: AddressSanitizer"); std::string s = nl ? nl : rep;
  size_t e = s.find('\n'); if (e != std::string::npos) s.resize(e);
  // addresses differ between builds of the same code, keep them out of the message
  std::string t; for (size_t i = 0; i < s.size(); i++) if (s.compare(i, 2, "0x") == 0) { t += "0x.."; i += 2; while (i < s.size() && isxdigit(s[i])) i++; i--; } else t += s[i];
  if (verbose) dprintf(1, "%s\n", rep);
  in_kernel++;
  snprintf(sh->cls, sizeof sh->cls, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "%.400s", t.c_str());
  note("VIOLATION %s", cls);
  finish(ST_VIOLATION);
}

static int rnd_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { if (i % 8 == 0) rand_state = mix(rand_state, 77); b[i] = rand_state >> (i % 8 * 8); } return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rnd_method = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status};

static u64 wall_ns() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static u64 strhash(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t) *s++) * 1099511628211ull; return h; }

static std::vector<u32> prop_scen; static u32 prop_weight;
static u32 scen_of(u64 key) { u32 w = mix(key, 4711) % prop_weight; for (u32 i : prop_scen) { if (w < scenarios()[i].weight) return i; w -= scenarios()[i].weight; } return prop_scen[0]; }

static void child_run(u32 scen, u64 key, const std::vector<u32> *replay)
{
  // a run that spins is ended by its own processor time, so that a busy machine does not change the outcome
  struct itimerval it = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &it, nullptr); it.it_value.tv_sec = 600; setitimer(ITIMER_REAL, &it, nullptr);
  signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL);
  run_key = key; rand_state = mix(key, 99);
  choices_begin(key, replay);
  sim_init_run(); fd_reset();
  edge_cap = 40000000;
  sh->scenario = scen;
  active = true;
  scenarios()[scen].run();
  in_kernel++;
  note("run ends normally");
  finish(ST_OK);
}

static void reset_shared()
{
  size_t o = offsetof(Shared, rec);
  memset(sh, 0, o);
  sh->hash = 1469598103934665603ull;
}

// forks one run; result in *sh
static void do_run(u32 scen, u64 key, const std::vector<u32> *replay, int outfd = -1)
{
  reset_shared();
  pid_t p = fork();
  if (p == 0)
  {
    if (outfd >= 0) { dup2(outfd, 1); verbose = true; }
    int nul = open("/dev/null", O_WRONLY); if (!getenv("SIM_STDERR")) dup2(nul, 2);
    child_run(scen, key, replay);
  }
  if (p < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (sh->status == ST_NONE)
  {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) { sh->status = ST_VIOLATION; snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "the run does not end"); sh->hash = 1; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { sh->status = ST_VIOLATION; snprintf(sh->cls, sizeof sh->cls, "crash:signal-%d", WTERMSIG(st)); snprintf(sh->msg, sizeof sh->msg, "the process is killed by signal %d", WTERMSIG(st)); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { sh->status = ST_VIOLATION; snprintf(sh->cls, sizeof sh->cls, "memory:error"); snprintf(sh->msg, sizeof sh->msg, "sanitizer error"); }
    else { sh->status = ST_INTERNAL; snprintf(sh->msg, sizeof sh->msg, "child ended with wait status %d", st); }
  }
}

struct Agg { u64 runs, nontrivial, simtime, edges, syscalls, switches, faulty_runs, steps, overflow; Counter faults[NCOUNTER], probes[NCOUNTER]; u64 scen_runs[256]; char samples[6][400]; int nsamples; };
static void add_counters(Counter *a, const Counter *b)
{
  for (int i = 0; i < NCOUNTER && b[i].name[0]; i++)
    for (int j = 0; j < NCOUNTER; j++)
    {
      if (!a[j].name[0]) memcpy(a[j].name, b[i].name, sizeof a[j].name);
      if (!strcmp(a[j].name, b[i].name)) { a[j].n += b[i].n; break; }
    }
}
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }

static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static const char *chan_name[] = {"CFG", "PLAN", "NET", "SCHED", "FAULT"};

struct Result { int status; std::string cls, msg; u64 hash; };
typedef std::vector<u32> Lists[NCHAN];
static void get_lists(std::vector<u32> *l) { for (int c = 0; c < NCHAN; c++) l[c].clear(); for (u32 i = 0; i < sh->nrec; i++) l[sh->rec[i].chan].push_back(sh->rec[i].val); }

static void write_replay(const std::string &path, u32 scen, u64 key, const std::vector<u32> *l, const Result &r, const std::string &trace, u64 seed, u64 idx)
{
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "libreactor-sim-replay 1\nproperty %s\nscenario %s\nseed %llu run %llu\nkey %llx\nclass %s\nhash %llx\nmessage %s\n", g_prop.c_str(), scenarios()[scen].name, (unsigned long long) seed, (unsigned long long) idx,
    (unsigned long long) key, r.cls.c_str(), (unsigned long long) r.hash, r.msg.c_str());
  for (int c = 0; c < NCHAN; c++) { fprintf(f, "choices %s", chan_name[c]); size_t n = l[c].size(); while (n && l[c][n - 1] == 0) n--; for (size_t i = 0; i < n; i++) fprintf(f, " %u", l[c][i]); fprintf(f, "\n"); }
  fprintf(f, "# trace of the minimised run\n");
  size_t p = 0; int lines = 0;
  while (p < trace.size()) { size_t e = trace.find('\n', p); if (e == std::string::npos) e = trace.size(); if (++lines > 3000) { fprintf(f, "# ...\n"); break; } fprintf(f, "# %s\n", trace.substr(p, e - p).c_str()); p = e + 1; }
  fclose(f);
}

static int do_replay(const char *path, bool v)
{
  FILE *f = fopen(path, "r"); if (!f) { perror(path); return 3; }
  std::vector<u32> l[NCHAN]; u64 key = 0, hash = 0; std::string cls, scen; char *line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0)
  {
    std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
    if (s.compare(0, 9, "property ") == 0) g_prop = s.substr(9);
    else if (s.compare(0, 9, "scenario ") == 0) scen = s.substr(9);
    else if (s.compare(0, 4, "key ") == 0) key = strtoull(s.c_str() + 4, nullptr, 16);
    else if (s.compare(0, 6, "class ") == 0) cls = s.substr(6);
    else if (s.compare(0, 5, "hash ") == 0) hash = strtoull(s.c_str() + 5, nullptr, 16);
    else if (s.compare(0, 8, "choices ") == 0)
    {
      const char *p = s.c_str() + 8; int c = 0; while (c < NCHAN && strncmp(p, chan_name[c], strlen(chan_name[c]))) c++;
      if (c == NCHAN) continue;
      p += strlen(chan_name[c]); char *e; while (1) { unsigned long x = strtoul(p, &e, 10); if (e == p) break; l[c].push_back(x); p = e; }
    }
  }
  fclose(f); free(line);
  for (u32 i = 0; i < scenarios().size(); i++)
    if (scen == scenarios()[i].name && g_prop == scenarios()[i].prop)
    {
      do_run(i, key, l, v ? 1 : -1);
      printf("status=%s class=%s hash=%llx message=%s\n", sh->status == ST_OK ? "ok" : sh->status == ST_VIOLATION ? "violation" : "internal", sh->cls, (unsigned long long) sh->hash, sh->msg);
      if (sh->status == ST_VIOLATION && cls == sh->cls && (hash == sh->hash || !hash)) { printf("REPRODUCED property=%s\n", g_prop.c_str()); return 1; }
      printf("NOT REPRODUCED\n");
      return sh->status == ST_OK ? 0 : 4;
    }
  fprintf(stderr, "unknown scenario %s\n", scen.c_str());
  return 3;
}

static u64 min_deadline; static int min_evals;
static bool try_lists(u32 scen, u64 key, std::vector<u32> *cand, const std::string &cls, std::vector<u32> *best)
{
  if (wall_ns() > min_deadline) return false;
  min_evals++;
  do_run(scen, key, cand);
  if (sh->status != ST_VIOLATION || cls != sh->cls) return false;
  for (int c = 0; c < NCHAN; c++) best[c] = cand[c];
  return true;
}
static void minimise(u32 scen, u64 key, const std::string &cls, std::vector<u32> *best, double secs)
{
  min_deadline = wall_ns() + (u64) (secs * 1e9); min_evals = 0;
  auto copy = [&](std::vector<u32> *d) { for (int c = 0; c < NCHAN; c++) d[c] = best[c]; };
  std::vector<u32> cand[NCHAN];
  bool any = true;
  for (int round = 0; any && round < 6; round++)
  {
    any = false;
    const int order[] = {FAULT, SCHED, NET, PLAN, CFG};
    for (int oc = 0; oc < NCHAN; oc++)
    {
      int c = order[oc];
      if (best[c].empty()) continue;
      copy(cand); cand[c].clear(); if (try_lists(scen, key, cand, cls, best)) { any = true; continue; }
      // shortest prefix
      size_t lo = 0, hi = best[c].size();
      while (lo + 1 < hi) { size_t m = (lo + hi) / 2; copy(cand); cand[c].resize(m); if (try_lists(scen, key, cand, cls, best)) { hi = m; any = true; } else lo = m; }
      // delete chunks
      for (size_t w = best[c].size() / 2; w >= 1; w /= 2)
      {
        for (size_t i = 0; i + w <= best[c].size();)
        {
          if (w == 1 && best[c].size() > 4000) break;
          copy(cand); cand[c].erase(cand[c].begin() + i, cand[c].begin() + i + w);
          if (try_lists(scen, key, cand, cls, best)) any = true; else i += w;
          if (wall_ns() > min_deadline) return;
        }
      }
      // zero chunks, then single values
      for (size_t w = std::max<size_t>(1, best[c].size() / 2); w >= 1; w /= 2)
        for (size_t i = 0; i < best[c].size(); i += w)
        {
          bool nz = false; for (size_t k = i; k < i + w && k < best[c].size(); k++) nz |= best[c][k] != 0;
          if (!nz) continue;
          copy(cand); for (size_t k = i; k < i + w && k < cand[c].size(); k++) cand[c][k] = 0;
          if (try_lists(scen, key, cand, cls, best)) any = true;
          else if (w == 1 && best[c][i] > 1) { copy(cand); cand[c][i] /= 2; if (try_lists(scen, key, cand, cls, best)) any = true; }
          if (wall_ns() > min_deadline) return;
        }
    }
  }
}

int main(int argc, char **argv)
{
  setenv("TZ", "SIM-5:30", 1);
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) if (!strncmp(argv[i], "--", 2)) o[argv[i] + 2] = argv[i + 1];
  __asan_set_error_report_callback(on_asan);
  signal(SIGPIPE, SIG_IGN);
  sh = (Shared *) shm(sizeof(Shared));
  rand_state = 12345; RAND_set_rand_method(&rnd_method);
  tls_init();
  if (mode == "list") { for (auto &s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
  if (mode == "replay") { return do_replay(argv[2], argc > 3); }
  if (mode != "run") { fprintf(stderr, "usage: sim list | replay FILE [-v] | run --prop P --seed S --runs N --workers W --wall SEC --out JSON --replay FILE\n"); return 2; }
  g_prop = o["prop"]; u64 seed = strtoull(o.count("seed") ? o["seed"].c_str() : "1", 0, 10), runs = strtoull(o.count("runs") ? o["runs"].c_str() : "1000", 0, 10);
  int workers = atoi(o.count("workers") ? o["workers"].c_str() : "8"); double wall = atof(o.count("wall") ? o["wall"].c_str() : "60");
  std::string only = o["scenario"];
  for (u32 i = 0; i < scenarios().size(); i++) if (g_prop == scenarios()[i].prop && (only.empty() || only == scenarios()[i].name)) { prop_scen.push_back(i); prop_weight += scenarios()[i].weight; }
  if (prop_scen.empty()) { fprintf(stderr, "no scenario for %s\n", g_prop.c_str()); return 2; }
  u64 base = mix(seed, strhash(g_prop.c_str()));
  u64 t0 = wall_ns();
  Agg *agg = (Agg *) shm(sizeof(Agg) * workers); u64 *hashes = (u64 *) shm(8 * runs + 8); uint8_t *nontriv = (uint8_t *) shm(runs + 8);
  struct Ctl { volatile u64 bad; volatile u64 internal; char imsg[512]; u64 det_checked, det_bad; } *ctl = (Ctl *) shm(sizeof(Ctl)); ctl->bad = ~0ull; ctl->internal = ~0ull;
  uint8_t *cov = (uint8_t *) shm((cov_count() + 2) * workers);
  u64 det_every = o.count("det") ? strtoull(o["det"].c_str(), 0, 10) : 97;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++)
  {
    pid_t p = fork();
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      sh = (Shared *) shm(sizeof(Shared)); cov_set(cov + (size_t) w * (cov_count() + 2));
      Agg *a = agg + w;
      for (u64 i = w + (o.count("from") ? strtoull(o["from"].c_str(), 0, 10) : 0); i < runs; i += workers)
      {
        if (i > ctl->bad || wall_ns() - t0 > (u64) (wall * 1e9)) break;
        u64 key = mix(base, i); u32 sc = scen_of(key);
        u64 r0 = wall_ns(); do_run(sc, key, nullptr); r0 = wall_ns() - r0;
        if (getenv("SIM_SLOW") && r0 > strtoull(getenv("SIM_SLOW"), nullptr, 10) * 1000000) fprintf(stderr, "%s run %llu takes %llu ms\n", g_prop.c_str(), (unsigned long long) i, (unsigned long long) r0 / 1000000);
        a->runs++; a->nontrivial += sh->nontrivial != 0; a->simtime += sh->simtime; a->edges += sh->edges; a->syscalls += sh->syscalls; a->switches += sh->switches; a->faulty_runs += sh->run_faults > 0; a->steps += sh->steps; a->overflow += sh->rec_overflow;
        a->scen_runs[sc & 255]++;
        add_counters(a->faults, sh->faults); add_counters(a->probes, sh->probes);
        hashes[i] = sh->hash; nontriv[i] = sh->nontrivial != 0;
        if (a->nsamples < 3 && sh->nontrivial && sh->sample[0]) { snprintf(a->samples[a->nsamples++], 400, "run %llu key %llx: %.330s", (unsigned long long) i, (unsigned long long) key, sh->sample); }
        if (sh->status == ST_INTERNAL) { u64 old = ctl->internal; if (i < old) { ctl->internal = i; snprintf(ctl->imsg, sizeof ctl->imsg, "%s", sh->msg); } }
        if (sh->status == ST_VIOLATION) { u64 old = ctl->bad; while (i < old && !__sync_bool_compare_and_swap(&ctl->bad, old, i)) old = ctl->bad; break; }
        if (det_every && i % det_every == 0)
        {
          u64 h = sh->hash; do_run(sc, key, nullptr); __sync_fetch_and_add(&ctl->det_checked, 1);
          if (h != sh->hash) __sync_fetch_and_add(&ctl->det_bad, 1);
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed\n"); return 3; } }
  double batch_wall = (wall_ns() - t0) / 1e9;
  Agg T = *agg; for (int w = 1; w < workers; w++)
  {
    Agg *a = agg + w; T.runs += a->runs; T.nontrivial += a->nontrivial; T.simtime += a->simtime; T.edges += a->edges; T.syscalls += a->syscalls; T.switches += a->switches; T.faulty_runs += a->faulty_runs; T.steps += a->steps; T.overflow += a->overflow;
    for (int i = 0; i < 256; i++) T.scen_runs[i] += a->scen_runs[i];
    add_counters(T.faults, a->faults); add_counters(T.probes, a->probes);
    for (int i = 0; i < a->nsamples && T.nsamples < 5; i++) memcpy(T.samples[T.nsamples++], a->samples[i], 400);
  }
  std::unordered_set<u64> d, dn; for (u64 i = 0; i < runs; i++) if (hashes[i]) { d.insert(hashes[i]); if (nontriv[i]) dn.insert(hashes[i]); }
  u64 covered = 0; for (u32 g = 1; g <= cov_count(); g++) { int x = 0; for (int w = 0; w < workers; w++) x |= cov[(size_t) w * (cov_count() + 2) + g]; covered += x; }
  // violation handling
  int code = 0; std::string vcls, vmsg, vfile; u64 vrun = 0; size_t before = 0, afterc = 0; std::string err;
  if (ctl->internal != ~0ull) { err = std::string("internal error in run ") + std::to_string(ctl->internal) + ": " + ctl->imsg; code = 3; }
  if (ctl->bad != ~0ull)
  {
    vrun = ctl->bad; u64 key = mix(base, vrun); u32 sc = scen_of(key);
    do_run(sc, key, nullptr); Result a{sh->status, sh->cls, sh->msg, sh->hash};
    std::vector<u32> best[NCHAN]; get_lists(best); for (auto &v : best) before += v.size();
    bool ovf = sh->rec_overflow;
    do_run(sc, key, nullptr);
    if (a.status != ST_VIOLATION || a.hash != sh->hash || a.cls != sh->cls) { err = "run " + std::to_string(vrun) + " is not repeatable (" + a.cls + " / " + sh->cls + ")"; code = 3; }
    else
    {
      if (!ovf && a.cls != "hang") minimise(sc, key, a.cls, best, atof(o.count("minimise") ? o["minimise"].c_str() : "20"));
      for (auto &v : best) { while (!v.empty() && v.back() == 0) v.pop_back(); }
      do_run(sc, key, best);
      Result m{sh->status, sh->cls, sh->msg, sh->hash}; for (auto &v : best) afterc += v.size();
      // trace
      std::string trace; { char tf[] = "/tmp/simtraceXXXXXX"; int fd = mkstemp(tf); unlink(tf); if (a.cls != "hang") do_run(sc, key, best, fd); off_t n = lseek(fd, 0, SEEK_END); if (n > 400000) n = 400000; trace.resize(n); if (pread(fd, &trace[0], n, 0) != n) trace.clear(); close(fd); }
      vfile = o.count("replay") ? o["replay"] : "replay.txt";
      write_replay(vfile, sc, key, best, m, trace, seed, vrun);
      // a fresh process must fail the same way
      fflush(stdout);
      pid_t p = fork(); if (p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); unsetenv("SIM_NOASLR"); execl("/proc/self/exe", "sim", "replay", vfile.c_str(), (char *) nullptr); _exit(9); }
      int st; waitpid(p, &st, 0);
      if (m.status == ST_VIOLATION && WIFEXITED(st) && WEXITSTATUS(st) == 1) { code = 1; vcls = m.cls; vmsg = m.msg; }
      else { err = "replay of run " + std::to_string(vrun) + " does not reproduce " + a.cls; code = 3; }
    }
  }
  if (!code && ctl->det_bad) { err = "nondeterminism: " + std::to_string(ctl->det_bad) + " of " + std::to_string(ctl->det_checked) + " runs repeated with a different hash"; code = 3; }
  if (o.count("out"))
  {
    FILE *f = fopen(o["out"].c_str(), "w");
    fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"code\":%d,\"error\":\"%s\",\"runs\":%llu,\"requested\":%llu,\"distinct_hashes\":%zu,\"distinct_nontrivial\":%zu,\"nontrivial\":%llu,\"faulty_runs\":%llu,\"simtime_s\":%.6f,\"edges\":%llu,\"syscalls\":%llu,\"switches\":%llu,\"steps\":%llu,\"wall_s\":%.3f,\"cov_edges\":%llu,\"cov_total\":%u,\"det_checked\":%llu,\"det_bad\":%llu,\"workers\":%d,",
      g_prop.c_str(), (unsigned long long) seed, code, esc(err).c_str(), (unsigned long long) T.runs, (unsigned long long) runs, d.size(), dn.size(), (unsigned long long) T.nontrivial, (unsigned long long) T.faulty_runs, T.simtime / 1e9, (unsigned long long) T.edges, (unsigned long long) T.syscalls, (unsigned long long) T.switches, (unsigned long long) T.steps, batch_wall, (unsigned long long) covered, cov_count(), (unsigned long long) ctl->det_checked, (unsigned long long) ctl->det_bad, workers);
    auto ctr = [&](const char *n, Counter *c) { fprintf(f, "\"%s\":{", n); for (int i = 0; i < NCOUNTER && c[i].name[0]; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", esc(c[i].name).c_str(), (unsigned long long) c[i].n); fprintf(f, "},"); };
    ctr("faults", T.faults); ctr("probes", T.probes);
    fprintf(f, "\"scenarios\":{"); { bool first = true; for (u32 i : prop_scen) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", scenarios()[i].name, (unsigned long long) T.scen_runs[i & 255]); first = false; } } fprintf(f, "},");
    fprintf(f, "\"samples\":["); for (int i = 0; i < T.nsamples; i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(T.samples[i]).c_str()); fprintf(f, "],");
    fprintf(f, "\"violation\":{\"class\":\"%s\",\"message\":\"%s\",\"run\":%llu,\"choices_before\":%zu,\"choices_after\":%zu,\"replay\":\"%s\"}}\n", esc(vcls).c_str(), esc(vmsg).c_str(), (unsigned long long) vrun, before, afterc, esc(vfile).c_str());
    fclose(f);
  }
  if (code == 1) printf("class=%s run=%llu choices %zu -> %zu: %s\n", vcls.c_str(), (unsigned long long) vrun, before, afterc, vmsg.c_str());
  if (!err.empty()) printf("ERROR %s\n", err.c_str());
  printf("%s: %llu runs (%zu distinct), %llu nontrivial, %.1f s wall, %.0f s simulated, coverage %llu/%u, determinism %llu/%llu\n", g_prop.c_str(), (unsigned long long) T.runs, d.size(), (unsigned long long) T.nontrivial, batch_wall, T.simtime / 1e9, (unsigned long long) covered, cov_count(), (unsigned long long) (ctl->det_checked - ctl->det_bad), (unsigned long long) ctl->det_checked);
  return code;
}
