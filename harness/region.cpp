// A03 persistence, A04 sharing, A05 life cycle of stores, B02 region lock: several processes, real files
#include "world.h"
#include <semaphore.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <string>
#include <atomic>
using namespace pbt;
using world::make;
template <class T> static T *shared(size_t n = 1) { void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); return (T *)p; }

struct Snap { u64 n[5]; u64 h[5]; u64 bytes[5]; };
static void snap(Snap &s) { RegionLists r; r.load(); std::vector<Ival> *v[5] = {&r.free_, &r.uncommitted, &r.used, &r.regionFree, &r.segs}; for (int i = 0; i < 5; i++) { s.n[i] = v[i]->size(); s.bytes[i] = RegionLists::sum(*v[i]); u64 h = 1; for (auto &x : *v[i]) { h = (h ^ x.a) * 0x9E3779B97F4A7C15ull; h = (h ^ x.n) * 0xD1B54A32D192ED03ull; h ^= h >> 31; } s.h[i] = h; } }
static const char *lname[5] = {"free", "uncommitted", "in-use", "unallocated", "segment"};
static void same(Case &c, const Snap &a, const Snap &b) { for (int i = 0; i < 5; i++) CHECK(a.n[i] == b.n[i] && a.h[i] == b.h[i], "bookkeeping", "the %s list was %lu ranges, %lx bytes and is now %lu ranges, %lx bytes", lname[i], a.n[i], a.bytes[i], b.n[i], b.bytes[i]); }
static void drop_locks(const std::string &store) { int id = shmget(ftok(store.c_str(), 'L' + 64), 0, 0); if (id != -1) shmctl(id, IPC_RMID, nullptr); }

// ---- A03: sessions one after the other, left in every way
PBT_TEST_X(A03, sessions, 4, 0, 30, 15) {
  World &w = *make(); Snap &sn = *shared<Snap>(); int *ready = shared<int>(); int n = (int)c.range(2, c.thorough ? 8 : 5); u64 tot = 0; std::string dir = c.stores[0];
  for (int s = 0; s < n; s++) {
    int how = (int)c.below(5); u64 ops = c.below(s == 0 ? 40 : 25) + (s == 0); tot += ops; *ready = 0;
    c.log("session %d: %lu steps, then %s", s, ops, how == 0 ? "SASCleanUp" : how == 1 ? "exit" : how == 2 ? "killed" : how == 3 ? "killed by another process" : "SASCleanUp and exit(0)");
    int pid = c.start([&] {
      int rc = SASJoinRegionByName(dir.c_str()); CHECK(rc == 0, "join", "join = %d", rc);
      if (s) { Snap x; snap(x); same(c, sn, x); world::verify(c, w); }
      for (u64 i = 0; i < ops; i++) world::step(c, w); world::verify(c, w); RegionLists r; world::account(c, w, r); snap(sn);
      // writes to objects of its own after the last call into the library
      for (int i = 0; i < w.nblk; i++) if (c.rarely(1, 3)) { w.blk[i].tag += 11; world::bfill(w.blk[i].a, w.blk[i].n, w.blk[i].tag); }
      if (how == 2) kill(getpid(), SIGKILL);
      if (how == 3) { *(volatile int *)ready = 1; for (;;) pause(); }
      if (how == 0 || how == 4) SASCleanUp(); });
    if (how == 3) { for (int k = 0; k < 20000 && !*(volatile int *)ready && c.sh->status == RUNNING; k++) usleep(500); if (*ready) kill(pid, SIGKILL); }
    c.wait_killed(pid);
    if (c.rarely(1, 4)) { c.log("reboot: the lock table is gone"); drop_locks(dir); }
    if (c.rarely(1, 5)) { std::string to = dir == c.stores[0] ? c.stores[1] : c.stores[0]; c.log("the store's files move to another directory"); DIR *d = opendir(dir.c_str()); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "SAS", 3)) CHECK(!rename((dir + "/" + e->d_name).c_str(), (to + "/" + e->d_name).c_str()), "test", "rename"); closedir(d); drop_locks(dir); dir = to; }
  }
  c.child([&] { CHECK(SASJoinRegionByName(dir.c_str()) == 0, "join", "last join"); Snap x; snap(x); same(c, sn, x); world::verify(c, w); for (int i = 0; i < 8; i++) world::step(c, w); world::verify(c, w); RegionLists r; world::account(c, w, r); });
  if (tot > 15) c.nontrivial();
}
// killed at any moment while it only touches its own memory or reads
PBT_TEST_X(A03, killed, 1, pbt::NONDET, 30, 15) {
  World &w = *make(); Snap &sn = *shared<Snap>(); int *ready = shared<int>(); u64 *upto = shared<u64>(8); u64 ops = c.range(5, 40); u64 N = 4096ull << c.below(12); u64 *base = shared<u64>();
  int pid = c.start([&] { sas_join(c); for (u64 i = 0; i < ops; i++) world::step(c, w); *base = (u64)SASBlockAlloc(N); CHECK(*base, "alloc", "block"); snap(sn); __sync_synchronize(); *(volatile int *)ready = 1;
    volatile u64 *p = (u64 *)*base; u64 m = N / 8; for (u64 i = 1;; i++) { p[i % m] = i; *(volatile u64 *)upto = i; if (!(i & 1023)) { SASIndexKey_t k; if (w.nie) (void)w.idx; (void)k; } } });
  for (int k = 0; k < 20000 && !*(volatile int *)ready && c.sh->status == RUNNING; k++) usleep(200); usleep((useconds_t)c.below(3000)); kill(pid, SIGKILL); c.wait_killed(pid);
  if (!*ready) return;
  c.child([&] { sas_join(c); Snap x; snap(x); same(c, sn, x); world::verify(c, w); u64 *p = (u64 *)*base, m = N / 8, u = *upto; for (u64 d = 0; d < m && d < u; d++) { u64 i = u - d; CHECK(p[i % m] == i || p[i % m] == i + m || (d == m - 1), "contents", "word %lu is %lu, written %lu", i % m, p[i % m], i); } SASBlockDealloc(p, N); for (int i = 0; i < 5; i++) world::step(c, w); RegionLists r; world::account(c, w, r); });
  c.nontrivial();
}
// ---- A04: several processes take turns
struct Turn { sem_t go, done; int cmd; u64 arg; int joined; int pid; };
PBT_TEST_X(A04, turns, 3, 0, 30, 15) {
  World &w = *make(); int P = (int)c.range(2, 4); Turn *t = shared<Turn>(P);
  for (int i = 0; i < P; i++) { sem_init(&t[i].go, 1, 0); sem_init(&t[i].done, 1, 0);
    t[i].pid = c.start([&, i] { for (;;) { while (sem_wait(&t[i].go)) ; int cmd = t[i].cmd;
      if (cmd == 9) return; if (cmd == 0) { sas_join(c); t[i].joined = 1; } else if (cmd == 1) for (u64 k = 0; k < t[i].arg; k++) world::step(c, w, 28); else if (cmd == 2) world::verify(c, w); else if (cmd == 3) { RegionLists r; world::account(c, w, r); } else if (cmd == 4) { SASCleanUp(); t[i].joined = 0; }
      sem_post(&t[i].done); } }); }
  auto tell = [&](int i, int cmd, u64 arg) { t[i].cmd = cmd; t[i].arg = arg; sem_post(&t[i].go); if (cmd == 9) { c.wait(t[i].pid); return; }
    for (;;) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 50000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; } if (!sem_timedwait(&t[i].done, &ts)) return; if (errno != ETIMEDOUT) continue; int st; if (c.sh->status != RUNNING) _exit(3); if (waitpid(t[i].pid, &st, WNOHANG) == t[i].pid) { if (sem_trywait(&t[i].done) == 0) return; if (c.sh->status != RUNNING) _exit(3); c.fail("crash", "process %d died (status %x) in command %d", i, st, cmd); } } };
  tell(0, 0, 0); u64 rounds = c.range(3, c.thorough ? 40 : 20); u64 other = 0; int last = 0;
  for (u64 r = 0; r < rounds; r++) { int i = (int)c.below(P);
    if (!t[i].joined) { c.log("process %d joins", i); tell(i, 0, 0); tell(i, 2, 0); continue; }
    int cmd = (int)c.below(10); if (cmd < 6) { u64 k = c.range(1, 8); c.log("process %d: %lu steps", i, k); tell(i, 1, k); if (i != last) other++; last = i; } else if (cmd < 8) { c.log("process %d compares", i); tell(i, 2, 0); } else if (cmd == 8) { tell(i, 3, 0); } else { c.log("process %d leaves", i); tell(i, 4, 0); } }
  for (int i = 0; i < P; i++) { if (t[i].joined) { tell(i, 2, 0); tell(i, 3, 0); } }
  for (int i = 0; i < P; i++) tell(i, 9, 0);
  if (other > 2) c.nontrivial();
}
// ---- A04: processes and threads at the same time
struct Common { std::atomic<long> net[64], netS[64], netN[64]; std::atomic<u64> claims[4096]; u64 idx, str, ctx, heap, comp, lf; std::atomic<int> started; int total; };
struct Actor { Case &c; Common &m; int me; Rng r; std::vector<World::P> b, h, s, l; std::vector<std::pair<u64, u64>> ie, se; std::vector<u64> ce; u64 tag;
  Actor(Case &c, Common &m, int me, u64 seed) : c(c), m(m), me(me), r(seed * 1315423911u + me), tag((u64)me << 32) {}
  void put(int kinds) {
    SASIndexKey_t k; char nm[40]; tag += 5;
    switch (r.below(kinds)) {
      case 0: if (b.size() > 12 || (!b.empty() && r.chance(2, 5))) { u64 i = r.below(b.size()); auto x = b[i]; CHECK(world::bcheck(x.a, x.n, x.tag), "contents", "actor %d: block %lx+%lx changed", me, x.a, x.n); SASBlockDealloc((void *)x.a, x.n); b[i] = b.back(); b.pop_back(); }
        else { u64 n = 4096ull << (r.chance(1, 8) ? r.below(16) : r.below(5)); u64 a = (u64)SASBlockAlloc(n); CHECK(a && a % n == 0, "alloc", "actor %d: block of %lx -> %lx", me, n, a); world::bfill(a, n, tag); b.push_back({a, n, tag}); } break;
      case 1: { u64 kv = (u64)(me + 1) << 20 | r.below(200); size_t i = 0; while (i < ie.size() && ie[i].first != kv) i++; bool has = i < ie.size();
        if (has) { void *g = SASIndexGet((SASIndex_t)m.idx, world::key(&k, kv)); CHECK((u64)g == ie[i].second, "index", "actor %d: own key %lx gives %p, stored %lx", me, kv, g, ie[i].second); if (r.chance(1, 2)) { g = SASIndexRemove((SASIndex_t)m.idx, world::key(&k, kv)); CHECK((u64)g == ie[i].second, "index", "actor %d: removing own key %lx gives %p, stored %lx", me, kv, g, ie[i].second); ie[i] = ie.back(); ie.pop_back(); } }
        else { u64 v = ++tag * 8; CHECK(SASIndexPut((SASIndex_t)m.idx, world::key(&k, kv), (void *)v), "index", "actor %d: put of absent key %lx refused", me, kv); ie.push_back({kv, v}); } break; }
      case 2: { u64 kv = r.below(24); if (r.chance(1, 2)) { if (SASIndexPut((SASIndex_t)m.idx, world::key(&k, kv), (void *)((kv + 1) * 16))) m.net[kv]++; } else { void *g = SASIndexRemove((SASIndex_t)m.idx, world::key(&k, kv)); if (g) { CHECK((u64)g == (kv + 1) * 16, "index", "key %lx gave %p", kv, g); m.net[kv]--; } } break; }
      case 3: { u64 kv = r.below(150); snprintf(nm, sizeof nm, "actor%d/%lu", me, kv); size_t i = 0; while (i < se.size() && se[i].first != kv) i++; bool has = i < se.size();
        if (has) { void *g = SASStringBTreeGet((SASStringBTree_t)m.str, nm); CHECK((u64)g == se[i].second, "tree", "actor %d: %s gives %p, stored %lx", me, nm, g, se[i].second); if (r.chance(1, 2)) { g = SASStringBTreeRemove((SASStringBTree_t)m.str, nm); CHECK((u64)g == se[i].second, "tree", "actor %d: removing %s gives %p", me, nm, g); se[i] = se.back(); se.pop_back(); } }
        else { u64 v = ++tag * 8; CHECK(SASStringBTreePut((SASStringBTree_t)m.str, nm, (void *)v), "tree", "actor %d: put of absent %s refused", me, nm); se.push_back({kv, v}); } break; }
      case 4: { u64 kv = r.below(24); snprintf(nm, sizeof nm, "common%lu", kv); if (r.chance(1, 2)) { if (SASStringBTreePut((SASStringBTree_t)m.str, nm, (void *)((kv + 1) * 16))) m.netS[kv]++; } else { void *g = SASStringBTreeRemove((SASStringBTree_t)m.str, nm); if (g) { CHECK((u64)g == (kv + 1) * 16, "tree", "%s gave %p", nm, g); m.netS[kv]--; } } break; }
      case 5: if (h.size() > 10 || (!h.empty() && r.chance(2, 5))) { u64 i = r.below(h.size()); auto x = h[i]; CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: heap piece changed", me); SASSimpleHeapFree((SASSimpleHeap_t)m.heap, (void *)x.a, x.n); h[i] = h.back(); h.pop_back(); }
        else { u64 n = 16 * (1 + r.below(30)); u64 a = (u64)SASSimpleHeapAlloc((SASSimpleHeap_t)m.heap, n); CHECK(a, "alloc", "actor %d: heap piece", me); fill((void *)a, n, tag); h.push_back({a, n, tag}); } break;
      case 6: if (s.size() > 8 || (!s.empty() && r.chance(2, 5))) { u64 i = r.below(s.size()); auto x = s[i]; CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: compound piece changed", me); SASNearDealloc((void *)x.a, x.n); SASCompoundHeapFree((SASCompoundHeap_t)m.comp, (SASSimpleHeap_t)(x.a & ~4095ull)); s[i] = s.back(); s.pop_back(); }
        else { u64 hh = (u64)SASCompoundHeapAlloc((SASCompoundHeap_t)m.comp); CHECK(hh, "alloc", "actor %d: no sub-heap", me); u64 n = 16 * (1 + r.below(20)); u64 a = (u64)SASSimpleHeapAlloc((SASSimpleHeap_t)hh, n); CHECK(a && a > hh && a < hh + 4096, "alloc", "actor %d: piece %lx in sub-heap %lx", me, a, hh); fill((void *)a, n, tag); s.push_back({a, n, tag}); } break;
      case 7: { u64 kv = (u64)me * 1000 + r.below(20); snprintf(nm, sizeof nm, "n%lu", kv); auto it = std::find(ce.begin(), ce.end(), kv); if (it != ce.end()) { void *g = SPHContextFindByName((SPHContext_t)m.ctx, nm); CHECK((u64)g == 0x10000 + kv * 16, "context", "actor %d: %s gives %p", me, nm, g); if (r.chance(1, 2)) { CHECK(SPHContextRemoveByName((SPHContext_t)m.ctx, nm) == 0, "context", "actor %d: removing %s", me, nm); ce.erase(it); } }
        else { CHECK(SPHContextAddName((SPHContext_t)m.ctx, nm, (void *)(0x10000 + kv * 16)), "context", "actor %d: naming %s", me, nm); ce.push_back(kv); } break; }
      case 8: if (l.size() > 8 || (!l.empty() && r.chance(2, 5))) { u64 i = r.below(l.size()); auto x = l[i]; CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: lock-free piece changed", me); CHECK(SPHLockFreeHeapFree((SPHLockFreeHeap_t)m.lf, (void *)x.a) == 0, "free", "actor %d: lock-free piece", me); l[i] = l.back(); l.pop_back(); }
        else { u64 n = 64 * (1 + r.below(4)); u64 a = (u64)SPHLockFreeHeapAlloc((SPHLockFreeHeap_t)m.lf, n); if (a) { fill((void *)a, n, tag); l.push_back({a, n, tag}); } } break;
      default: { RegionLists rl; if (r.chance(1, 6)) { rl.load(); (void)SASMaxDepthUseMem(); (void)SASMaxDepthAllocatedRegion(); u64 t = rl.avail(); (void)t; for (auto &x : b) CHECK(covered(rl.used, x.a, x.n), "in-use", "actor %d: own live block %lx+%lx is not listed as in use", me, x.a, x.n); } break; }
    } }
  void finish() { SASIndexKey_t k; char nm[40];
    for (auto &x : b) CHECK(world::bcheck(x.a, x.n, x.tag), "contents", "actor %d: block %lx+%lx changed", me, x.a, x.n);
    for (auto &x : h) CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: heap piece changed", me);
    for (auto &x : s) CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: compound piece changed", me);
    for (auto &x : l) CHECK(check_fill((void *)x.a, x.n, x.tag) < 0, "contents", "actor %d: lock-free piece changed", me);
    for (auto &x : ie) { void *g = SASIndexGet((SASIndex_t)m.idx, world::key(&k, x.first)); CHECK((u64)g == x.second, "index", "actor %d: own key %lx gives %p, stored %lx", me, x.first, g, x.second); }
    for (auto &x : se) { snprintf(nm, sizeof nm, "actor%d/%lu", me, x.first); void *g = SASStringBTreeGet((SASStringBTree_t)m.str, nm); CHECK((u64)g == x.second, "tree", "actor %d: %s gives %p, stored %lx", me, nm, g, x.second); }
    for (u64 kv : ce) { snprintf(nm, sizeof nm, "n%lu", kv); CHECK((u64)SPHContextFindByName((SPHContext_t)m.ctx, nm) == 0x10000 + kv * 16, "context", "actor %d: %s", me, nm); } }
  u64 nidx() { return ie.size(); } };
struct Totals { std::atomic<u64> ie, se, heap, used, subs; };
PBT_TEST_X(A04, atonce, 3, pbt::NONDET, 40, 40) {
  Common &m = *shared<Common>(); Totals &T = *shared<Totals>(); int P = (int)c.range(1, 4), N = (int)c.range(P == 1 ? 2 : 1, 3); u64 seed = c.bits64(), ops = c.range(50, 400); int only = c.chance(1, 2) ? 10 : (int)c.range(1, 10);
  c.log("%d processes of %d threads, %lu steps each of kinds 0..%d, seed %lu", P, N, ops, only - 1, seed); m.total = P;
  c.child([&] { sas_join(c); m.idx = (u64)SASIndexCreate(1 << 18); m.str = (u64)SASStringBTreeCreate(1 << 18); m.ctx = (u64)SPHContextCreate(1 << 18); m.heap = (u64)SASSimpleHeapCreate(1 << 20); m.comp = (u64)SASCompoundHeapCreatePageSize(1 << 18, 4096); m.lf = (u64)SPHLockFreeHeapCreate(1 << 16, 64); CHECK(m.idx && m.str && m.ctx && m.heap && m.comp && m.lf, "create", "containers"); });
  struct Sn { u64 used; } *sn = shared<Sn>(); c.child([&] { sas_join(c); RegionLists r; r.load(); sn->used = RegionLists::sum(r.used); });
  std::vector<int> ps;
  for (int p = 0; p < P; p++) ps.push_back(c.start([&, p] { sas_join(c); m.started++; while (m.started < P) sched_yield();
    struct TA { Actor *a; u64 ops; int only; }; std::vector<Actor *> as; std::vector<pthread_t> ts(N);
    for (int i = 0; i < N; i++) as.push_back(new Actor(c, m, p * 4 + i, seed));
    std::vector<TA> ta(N); for (int i = 0; i < N; i++) { ta[i] = {as[i], ops, only}; pthread_create(&ts[i], nullptr, [](void *v) -> void * { TA *t = (TA *)v; SASThreadSetUp(); for (u64 k = 0; k < t->ops; k++) t->a->put(t->only); return nullptr; }, &ta[i]); }
    for (auto &x : ts) pthread_join(x, nullptr);
    for (auto a : as) { a->finish(); T.ie += a->ie.size(); T.se += a->se.size(); for (auto &x : a->b) T.used += x.n; T.subs += a->s.size(); for (auto &x : a->h) T.heap += x.n; } }));
  for (int p : ps) c.wait(p);
  c.child([&] { sas_join(c); RegionLists r; check_region(c, r); SASIndexKey_t k; char nm[40]; u64 n = T.ie.load(); u64 nstr = T.se.load();
    for (int i = 0; i < 24; i++) { void *g = SASIndexGet((SASIndex_t)m.idx, world::key(&k, i)); long e = m.net[i]; CHECK((e == 0 || e == 1) && (g != nullptr) == (e == 1), "index", "key %d: %ld successful puts more than removals, and it is %s", i, e, g ? "there" : "absent"); n += e; snprintf(nm, sizeof nm, "common%d", i); g = SASStringBTreeGet((SASStringBTree_t)m.str, nm); e = m.netS[i]; CHECK((e == 0 || e == 1) && (g != nullptr) == (e == 1), "tree", "%s: %ld puts more than removals, and it is %s", nm, e, g ? "there" : "absent"); nstr += e; }
    { u64 q = world::idx_count((SASIndex_t)m.idx); CHECK(q == n, "index", "the enumeration has %lu entries, expected %lu", q, n); } CHECK(SASStringBTreeGetCurCount((SASStringBTree_t)m.str) == nstr, "tree", "%lu entries, expected %lu", (u64)SASStringBTreeGetCurCount((SASStringBTree_t)m.str), nstr);
    u64 f = SASSimpleHeapFreeSpace((SASSimpleHeap_t)m.heap), ef = (1 << 20) - 128 - T.heap; CHECK(f == ef, "free-space", "simple heap: %lx free, expected %lx", f, ef);
    if (only == 1) { u64 u = RegionLists::sum(r.used), eu = sn->used + T.used; CHECK(u == eu, "conserve", "%lx bytes in use, expected %lx", u, eu); } });
  c.count("steps", ops * P * N); c.nontrivial();
}
