// C09: file change notifications
#include "scen.h"
#include "internal.h"
#include <sys/inotify.h>
using namespace sim;

namespace {
struct Gen { Inotify *in; std::deque<Inotify::Ev> q; std::map<int, std::string> path; u64 delivered = 0; std::map<std::string, u32> asked; std::string calling; u32 calling_mask = 0; std::set<std::pair<int, u32>> unasked; };   // one life of the change queue
struct N { notify *n = nullptr; int id; Gen *g = nullptr; bool dead = false; int depth = 0; };
struct NW { std::vector<N *> v; std::map<int, N *> by_id; int next = 1, ops; std::vector<std::string> paths; bool slots; std::vector<notify *> freed; size_t limit; u64 flips = 0, made = 0; int in_cb = 0; } *P;
void n_cb(reactor_event *e);
const u32 masks[] = {IN_MODIFY, IN_CREATE, IN_DELETE, IN_ATTRIB, IN_OPEN, IN_ACCESS, IN_CLOSE_WRITE, IN_MOVED_FROM, IN_MOVED_TO, IN_CREATE | IN_ISDIR, IN_CLOSE_NOWRITE, IN_MOVE_SELF, IN_DELETE | IN_ISDIR};
void fs_one()
{
  Kernel k; const std::string &p = P->paths[choose(PLAN, P->paths.size())];
  if (!vfs.count(p)) { if (choose(PLAN, 3) == 0) { P->flips++; vfs[p] = std::make_shared<INode>(); vfs[p]->dir = choose(PLAN, 3); note("%s appears again", p.c_str()); } return; }
  u32 m = masks[choose(PLAN, 13)]; std::string name; u32 nl = vfs[p]->dir ? choose(PLAN, 4) : 0;
  if (nl == 1) name = "f"; else if (nl == 2) name = "entry" + std::to_string(choose(PLAN, 1000)); else if (nl == 3) { name.assign(1 + choose(PLAN, 255), 'a' + choose(PLAN, 26)); }
  // what was asked for is watched
  for (N *x : P->v) if (x->g) { Gen *g = x->g; if (g->asked.count(p) && (g->asked[p] & m & IN_ALL_EVENTS) && g->calling != p) { bool w = false; for (auto &i : g->in->wds) if (i.second.first == p && (i.second.second & m & IN_ALL_EVENTS)) w = true; CHECK(w, "notify-unwatched", "changes %x of %s were asked for (%x) but are not watched", m, p.c_str(), g->asked[p]); } }
  fs_event(p, m, name, choose(PLAN, 4)); P->made++;
  for (N *x : P->v) if (x->g && x->g->asked.count(p) && (x->g->asked[p] & IN_ONESHOT) && (x->g->asked[p] & m & IN_ALL_EVENTS)) x->g->asked.erase(p);
}
void fs_change()
{
  switch (choose(PLAN, 8))
  {
  case 7: { u32 n = pick(PLAN, {20, 300, 80, 5}); note("a burst of %u changes", n); while (n--) fs_one(); probe("burst"); break; }
  case 6: { Kernel k; const std::string p = P->paths[choose(PLAN, P->paths.size())]; if (vfs.count(p)) { note("%s disappears", p.c_str()); fs_event(p, choose(PLAN, 4) == 3 ? IN_UNMOUNT : IN_DELETE_SELF); vfs.erase(p); for (N *x : P->v) if (x->g) x->g->asked.erase(p); P->flips++; fault("watched_path_deleted"); } break; }
  default: { u32 n = 1 + choose(PLAN, 4); while (n--) fs_one(); }
  }
}
void check_path(N *x, int wd, const std::string &p) { x->g->path[wd] = p; }
void n_watch(N *x)
{
  std::string p = P->paths[choose(PLAN, P->paths.size())]; u32 m = choose(PLAN, 3) ? IN_ALL_EVENTS : masks[choose(PLAN, 9)] | (choose(PLAN, 2) ? IN_DELETE_SELF | IN_MODIFY : 0); static const u32 how[] = {0, 0, 0, IN_ONESHOT, IN_MASK_ADD, IN_ONLYDIR, IN_MASK_CREATE, IN_DONT_FOLLOW, IN_EXCL_UNLINK}; m |= how[choose(PLAN, 9)];
  char *t = strdup(p.c_str()); bool exists = vfs.count(p);
  note("watch %s by %d", p.c_str(), x->id);
  size_t before = inotifies.size(); u64 flips = P->flips;
  if (x->g) { x->g->calling = p; x->g->calling_mask = m; }
  int wd = notify_watch(x->n, t, m);
  memset(t, 'X', p.size()); free(t);                                     // the path given may be changed
  if (inotifies.size() > before)
  {
    CHECK(!x->g, "notify-queue-twice", "a second change queue is opened for one notify");
    Gen *g = new Gen; g->in = inotifies.back(); g->q = g->in->q; g->in->max_queued = P->limit; x->g = g; g->calling = p;
    g->in->on_queued = [g](const Inotify::Ev &e) {
      g->q.push_back(e);
      if (e.wd < 0) return;
      const std::string &p = g->path.count(e.wd) ? g->path[e.wd] : g->calling; u32 a = (g->asked.count(p) ? g->asked[p] : 0) | (p == g->calling ? g->calling_mask | IN_ALL_EVENTS : 0);
      if (!(e.mask & (a | IN_IGNORED | IN_UNMOUNT) & (IN_ALL_EVENTS | IN_IGNORED | IN_UNMOUNT))) g->unasked.insert({e.wd, e.mask});
      if (g->asked.count(p) && (g->asked[p] & IN_ONESHOT)) g->asked.erase(p);
    };
  }
  CHECK(x->g, "notify-no-queue", "a watch was made but no change queue is open");
  bool refused = (m & IN_ONLYDIR && exists && vfs.count(p) && !vfs[p]->dir) || m & IN_MASK_CREATE;
  if ((bool) vfs.count(p) == exists && !(refused && wd < 0)) CHECK((wd >= 0) == exists || P->flips != flips, "notify-watch-result", "watching %s returns %d", exists ? "an existing path" : "a path that does not exist", wd);
  if (wd >= 0 && !x->g->in->wds.count(wd)) x->g->asked.erase(p); else if (wd >= 0) { u32 &a = x->g->asked[p]; a = m & IN_MASK_ADD ? a | m : m; }
  x->g->calling.clear(); x->g->calling_mask = 0;
  if (wd >= 0) { CHECK(!x->g->in->wds.count(wd) || x->g->in->wds[wd].first == p, "notify-watch-result", "the identifier returned is not the one of the watch"); x->g->path[wd] = p; }
}
N *n_new()
{
  N *x = new N; x->id = P->next++; P->by_id[x->id] = x; P->v.push_back(x);
  if (P->slots && !P->freed.empty()) { x->n = P->freed.back(); P->freed.pop_back(); } else x->n = (notify *) malloc(sizeof(notify));
  memset((void *) x->n, 0xA5, sizeof(notify)); notify_construct(x->n, n_cb, (void *) (uintptr_t) x->id); return x;
}
void drop(N *x) { if (x->g) { if (!x->g->q.empty()) probe("cleared_with_queued_changes"); x->g = nullptr; } }
void n_clear(N *x) { note("clear %d", x->id); if (P->in_cb) probe("clear_in_callback"); notify_clear(x->n); drop(x); }
void n_destroy(N *x)
{
  note("destruct %d", x->id); if (P->in_cb) probe("destruct_in_callback"); notify_destruct(x->n); drop(x);
  P->by_id.erase(x->id); P->v.erase(std::find(P->v.begin(), P->v.end(), x));
  memset((void *) x->n, 0xEE, sizeof(notify));
  if (P->slots) P->freed.push_back(x->n); else free(x->n);
  delete x;
}
void n_op(N *self)
{
  if (P->ops <= 0) return;
  P->ops--;
  N *x = self && choose(PLAN, 2) ? self : P->v.empty() ? nullptr : P->v[choose(PLAN, P->v.size())];
  switch (choose(PLAN, 8))
  {
  case 0: case 1: case 2: fs_change(); break;
  case 3: case 4: if (x) n_watch(x); break;
  case 5: if (x) { n_clear(x); u32 k = choose(PLAN, 3); while (k--) n_watch(x); } break;
  case 6: if (x) n_destroy(x); break;
  case 7: if (P->v.size() < 5) { x = n_new(); u32 k = 1 + choose(PLAN, 4); while (k--) n_watch(x); } break;
  }
}
void n_cb(reactor_event *e)
{
  CHECK(e->type == NOTIFY_EVENT, "notify-type", "unknown callback type %d", e->type);
  int id = (int) (uintptr_t) e->state; auto i = P->by_id.find(id);
  CHECK(i != P->by_id.end(), "notify-after-destruct", "a change is delivered after destruct");
  N *x = i->second; CHECK(x->g, "notify-after-clear", "a change is delivered after clear");
  notify_event *v = (notify_event *) e->data; Gen *g = x->g;
  while (!g->q.empty() && g->q.front().wd < 0) { g->q.pop_front(); probe("delivery_after_overflow"); }
  CHECK(!g->q.empty(), "notify-invented", "a change is delivered that was not reported (id %d mask %x name '%s')", v->id, v->mask, v->name);
  Inotify::Ev x0 = g->q.front(); g->q.pop_front();
  note("change id %d mask %x path %s name %.20s", v->id, v->mask, v->path, v->name);
  CHECK(v->id == x0.wd && v->mask == x0.mask && x0.name == v->name, "notify-wrong", "delivered: id %d mask %x name '%s', reported: id %d mask %x name '%s'", v->id, v->mask, v->name, x0.wd, x0.mask, x0.name.c_str());
  CHECK(g->path.count(v->id) && g->path[v->id] == v->path, "notify-path", "a change of %s is delivered with the path %.60s", g->path[v->id].c_str(), v->path);
  CHECK(!g->unasked.count({v->id, v->mask}), "notify-unasked", "a change %x of %s is delivered that nobody asked for", v->mask, v->path);
  g->delivered++; nontrivial();
  P->in_cb++;
  if (choose(PLAN, 4) == 3) n_op(x);
  P->in_cb--;
}
void run_notify()
{
  NW w; P = &w; random_env(); w.ops = 4 + choose(CFG, 60); w.slots = choose(CFG, 2); w.limit = pick(CFG, {16384, 16384, 60, 5, 400});
  u32 np = choose(CFG, 40) == 39 ? 100 + choose(CFG, 300) : 1 + choose(CFG, 5), longest = pick(CFG, {100, 100, 300, 4000}); for (u32 i = 0; i < np; i++) { w.paths.push_back("/sim/" + std::string(i % 5 == 2 ? longest : 1, 'd') + std::to_string(i)); if (choose(CFG, 5) < 4) { vfs[w.paths[i]] = std::make_shared<INode>(); vfs[w.paths[i]]->dir = choose(CFG, 3); } }
  reactor_construct(); size_t base = fd_count(), heap = lib_blocks();
  u32 n = 1 + choose(CFG, 3), rounds = 1 + choose(CFG, 12);
  sample("notifies=%u paths=%u ops=%d limit=%zu", n, np, w.ops, w.limit);
  for (u32 i = 0; i < n; i++) { N *x = n_new(); u32 k = np > 5 && choose(PLAN, 2) ? np : 1 + choose(PLAN, 3); while (k--) n_watch(x); }
  for (u32 r = 0; r < rounds; r++)
  {
    u32 k = choose(PLAN, 4); while (k--) n_op(nullptr);
    if (choose(PLAN, 3) == 2) { u32 m = 1 + choose(PLAN, 8); u64 t = mono; while (m--) { t += between(NET, 0, pick(NET, {500, 5000, 1000000})); at(t, [] { fs_one(); }); } }
    u32 st = choose(PLAN, 4); while (st--) step();
  }
  w.ops = 0;
  quiesce();
  for (N *x : w.v) if (x->g)
  {
    for (auto &q : x->g->q) CHECK(q.wd < 0, "notify-missed", "%zu reported changes are not delivered when all is quiet (next: id %d mask %x)", x->g->q.size(), q.wd, q.mask);
  }
  while (!w.v.empty()) n_destroy(w.v[choose(PLAN, w.v.size())]);
  progress(); reactor_loop();
  CHECK(fd_count() == base, "notify-fd-leak", "descriptors left: %s", fd_list().c_str());
  CHECK(lib_blocks() == heap, "notify-heap-leak", "heap blocks left: %s", lib_blocks_list().c_str());
  reactor_destruct();
  for (notify *f : w.freed) free(f);
}
Reg r09("C09", "notify", run_notify);
}
