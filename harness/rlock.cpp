// B02: the region-wide lock.  "sched" variant: all schedules of a few threads; "plain": processes, signals, every call
#define NO_LOCK_WATCH
#include "procs.h"
#include <sys/resource.h>
#include <sys/time.h>
#ifdef VERIF_SCHED
#include "sched_api.h"
struct ROp { int k; u64 n; };
// the lock's state before the threads start: fresh, re-joined, reset
static int prepare(Case &c) {
  int how = (int)c.below(5); sas_join(c);
  if (how == 1) { SASBlockAlloc(4096); SASReset(); } else if (how == 2) { SASSeize(); SASRelease(); SASResetSem(); } else if (how == 3) { SASBlockAlloc(1 << 28); SASCleanUp(); sas_join(c); } else if (how == 4) for (int i = 0; i < 3; i++) { SASReset(); SASResetSem(); }
  static const char *n[] = {"a new region", "after SASReset", "after SASResetSem", "a joined region", "after several resets"}; c.log("%s", n[how]); return how; }
PBT_TEST_X(B02, schedules, 4, 0, 20, 10) {
  prepare(c); if (c.rarely(1, 4)) { setSASLinearUseList(); c.log("linear use list"); }
  RegionLists r; r.load(); u64 avail0 = r.avail(), seg0 = r.segs.size();
  int nth = (int)c.range(2, c.thorough ? 6 : 4); std::vector<std::vector<ROp>> plan(nth); int holder = -1; u64 cell = 0, sections = 0; u64 epoch = 0; Ivals live; u64 tot = 0;
  for (auto &p : plan) { u64 k = c.range(1, 6); for (u64 i = 0; i < k; i++) p.push_back({(int)c.below(8), 4096ull << (c.rarely(1, 4) ? c.range(8, 17) : c.below(6))}); tot += k; }
  std::vector<std::function<void()>> fs; u64 left = 0;
  for (int t = 0; t < nth; t++) fs.push_back([&, t] {
    std::vector<std::pair<u64, u64>> mine; u64 e; bool inside;
    auto enter = [&] { sched::Quiet q; e = epoch; inside = holder >= 0; };
    auto leave = [&](const char *what) { sched::Quiet q; CHECK(!(inside && holder >= 0 && e == epoch), "exclusion", "%s of thread %d was done while thread %d held the region's lock", what, t, holder); };
    for (auto &o : plan[t]) switch (o.k) {
      case 0: case 1: case 2: { SASSeize(); { sched::Quiet q; CHECK(holder < 0, "exclusion", "thread %d got the region's lock while thread %d holds it", t, holder); holder = t; epoch++; c.log("thread %d holds the lock", t); } u64 v = cell; sched::yield(); if (o.k) sched::yield(); if (o.k == 2) sched::yield(); CHECK(cell == v, "exclusion", "data under the region's lock changed"); cell = v + 1; { sched::Quiet q; sections++; holder = -1; epoch++; c.log("thread %d gives the lock back", t); } SASRelease(); break; }
      case 3: case 4: { enter(); u64 a = (u64)SASBlockAlloc(o.n); if (a) leave("an allocation"); sched::Quiet q; c.log("thread %d: block of %lx -> %lx", t, o.n, a); CHECK((a != 0) == (o.n <= 0x10000000), "alloc", "block of %lx = %lx", o.n, a); if (a) { Ival w; CHECK(!live.hits(a, o.n, &w), "overlap", "block %lx+%lx overlaps %lx+%lx", a, o.n, w.a, w.n); live.add(a, o.n); mine.push_back({a, o.n}); } break; }
      case 5: case 6: if (!mine.empty()) { auto b = mine.back(); mine.pop_back(); { sched::Quiet q; live.del(b.first); c.log("thread %d frees %lx", t, b.first); } enter(); SASBlockDealloc((void *)b.first, b.second); leave("a deallocation"); } break;
      default: { void *a[400]; unsigned long s[400]; int n = 0; switch (o.n >> 12) { case 1: SASListFreeMem(a, s, &n); break; case 2: SASListUncommittedMem(a, s, &n); break; case 4: SASListInUseMem(a, s, &n); break; case 8: SASListAllocatedRegion(a, s, &n); break; case 16: SASListFreeRegion(a, s, &n); break; default: n = (int)SASAnchorFreeSpace() > 0; } (void)n; u64 z = (u64)SASBlockAlloc(0x20000000); CHECK(!z, "alloc", "a block of two segments"); } }
    for (auto &b : mine) { { sched::Quiet q; live.del(b.first); } SASBlockDealloc((void *)b.first, b.second); }
    sched::Quiet q; left++; });
  sched::run(c, fs, 6000000); CHECK(left == (u64)nth, "test", "threads"); CHECK(cell == sections, "exclusion", "%lu sections, %lu counted", sections, cell);
  fs.clear(); fs.push_back([] { SASSeize(); SASRelease(); SASSeize(); SASRelease(); }); sched::run(c, fs);
  check_region(c, r); CHECK(r.avail() == avail0 + (r.segs.size() - seg0) * 0x10000000, "conservation", "%lx available at the start, %lx at the end with %lu more segments", avail0, r.avail(), r.segs.size() - seg0);
  if (tot > 4 && sections) c.nontrivial();
}
#else
static u64 nowms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
struct Ctl { sem_t go, done; int cmd; int pid; volatile int in; };
static void post(Ctl &p, int cmd) { p.cmd = cmd; sem_post(&p.go); }
static bool wait_done(Case &c, Ctl &p, int ms) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); u64 ns = ts.tv_nsec + ms * 1000000ull; ts.tv_sec += ns / 1000000000; ts.tv_nsec = ns % 1000000000; int r; while ((r = sem_timedwait(&p.done, &ts)) && errno == EINTR) ; if (c.sh->status != RUNNING) _exit(3); return r == 0; }
enum { C_EXIT, C_JOIN, C_SEIZE, C_RELEASE, C_ALLOC, C_LEAVE };
static void helper(Case &c, Ctl &p) { for (;;) { while (sem_wait(&p.go)) ; switch (p.cmd) { case C_EXIT: return; case C_JOIN: sas_join(c); break; case C_SEIZE: SASSeize(); break; case C_RELEASE: SASRelease(); break; case C_ALLOC: { void *b = SASBlockAlloc(4096); CHECK(b, "alloc", "helper"); SASBlockDealloc(b, 4096); break; } case C_LEAVE: SASCleanUp(); break; } sem_post(&p.done); } }
static void tell(Case &c, Ctl &p, int cmd, const char *after) { post(p, cmd); for (int k = 0; k < 40; k++) { if (wait_done(c, p, 250)) return; } c.fail("held", "another process cannot take the region's lock after %s", after); }
// after every call, successful or not, another process gets the lock, and exactly once
PBT_TEST_X(B02, calls, 3, 0, 40, 20) {
  World &w = *world::make(); Ctl *h = shared<Ctl>(2); int nh = 2; bool late = c.chance(1, 2); for (int i = 0; i < nh; i++) { sem_init(&h[i].go, 1, 0); sem_init(&h[i].done, 1, 0); h[i].pid = c.start([&, i] { helper(c, h[i]); }); }
  bool out = true; auto in = [&] { if (out) for (int i = 0; i < nh; i++) tell(c, h[i], C_JOIN, "joining"); out = false; }; auto leave = [&] { if (!out) for (int i = 0; i < nh; i++) tell(c, h[i], C_LEAVE, "leaving"); out = true; };
  if (late) { sas_join(c); in(); } else { in(); sas_join(c); }
  auto probe = [&](const char *after, bool deep) { in(); tell(c, h[0], C_SEIZE, after);
    if (deep) { post(h[1], C_SEIZE); CHECK(!wait_done(c, h[1], 4), "exclusion", "two processes hold the region's lock at once after %s", after); tell(c, h[0], C_RELEASE, after); for (int k = 0; k < 40 && !wait_done(c, h[1], 250); k++) CHECK(k < 38, "lost", "a process waiting for the region's lock was not woken after %s", after); tell(c, h[1], C_RELEASE, after); }
    else tell(c, h[0], C_RELEASE, after); };
  probe("joining", c.chance(1, 2)); u64 n = c.range(3, 30); RegionLists r; int resets = 0;
  for (u64 i = 0; i < n; i++) { const char *what = "a change of the store"; bool deep = c.rarely(1, 5);
    switch (c.below(11)) {
      default: world::step(c, w, 28); break;
      case 4: { what = "a block that is too large"; CHECK(!SASBlockAlloc(0x10000000ull << c.range(1, 8)), "alloc", "too large"); c.log("too large"); break; }
      case 5: { what = "a refused segment"; rlimit k, z; getrlimit(RLIMIT_NOFILE, &k); z = k; int fd = dup(0); close(fd); z.rlim_cur = fd; c.log("no descriptors"); r.load(); bool room = false; for (auto *v : {&r.free_, &r.uncommitted}) for (auto &x : *v) room |= x.n == 0x10000000; setrlimit(RLIMIT_NOFILE, &z); void *p = SASBlockAlloc(0x10000000); void *q = SASSimpleHeapCreate(0x10000000); setrlimit(RLIMIT_NOFILE, &k); CHECK(room || (!p && !q), "alloc", "obtained"); if (p) SASBlockDealloc(p, 0x10000000); if (q) SASSimpleHeapDestroy((SASSimpleHeap_t)q); break; }
      case 6: { what = "a listing"; c.log("lists"); r.load(); SASAnchorFreeSpace(); SASMaxDepthAllocatedRegion(); SASMaxDepthUseMem(); break; }
      case 7: { what = "SASReset"; leave(); SASReset(); memset(&w, 0, sizeof w); c.log("reset"); resets++; deep = true; break; }
      case 8: { what = "SASResetSem"; if (c.chance(1, 2)) { SASSeize(); c.log("a lock that is held is reset"); } SASResetSem(); c.log("semaphore reset"); deep = true; break; }
      case 9: { what = "joining again"; if (c.chance(1, 2)) { SASCleanUp(); sas_join(c); c.log("left and joined"); } else { leave(); SASRemove(); sas_join(c); memset(&w, 0, sizeof w); c.log("removed and joined"); } deep = true; break; }
      case 10: { what = "another process's allocation"; in(); tell(c, h[0], C_ALLOC, "a call"); break; } }
    probe(what, deep); }
  world::verify(c, w); for (int i = 0; i < nh; i++) { post(h[i], C_EXIT); c.wait(h[i].pid); } if (n > 6) c.nontrivial(); c.count("resets", resets);
}
// processes and threads contending, interrupted by signals
struct Shm { volatile u64 cell, inside, ticks; u64 errors; };
static volatile long sigs;
static void on_alarm(int) { sigs++; }
PBT_TEST_X(B02, contend, 2, pbt::NONDET, 40, 40) {
  Shm *s = shared<Shm>(); int P = (int)c.range(2, 4), T = (int)c.range(1, 3); u64 N = c.range(20, 400); int how = (int)c.below(3); bool alarm = c.chance(2, 3); int pause = (int)c.below(4); u64 seed = c.below(1000000);
  c.log("%d processes of %d threads, %lu sections each, %s%s", P, T, N, how == 0 ? "new region" : how == 1 ? "after a reset" : "joined region", alarm ? ", signals" : ""); std::vector<int> ps; sem_t *go = shared<sem_t>(); sem_init(go, 1, 0);
  c.child([&] { sas_join(c); if (how == 1) SASReset(); SASCleanUp(); });
  if (how == 1) { sas_join(c); SASReset(); }
  for (int i = 0; i < P; i++) ps.push_back(c.start([&, i] { if (how != 1) sas_join(c); if (alarm) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr); itimerval it = {{0, 300 + i * 77}, {0, 300}}; setitimer(ITIMER_REAL, &it, nullptr); }
    while (sem_wait(go)) ; sem_post(go); std::vector<pthread_t> th(T); struct A { Case *c; Shm *s; u64 N, seed; int pause; }; std::vector<A> as; for (int t = 0; t < T; t++) as.push_back({&c, s, N, seed * 100 + i * 10 + t, pause});
    for (int t = 0; t < T; t++) pthread_create(&th[t], nullptr, [](void *p) -> void * { A &a = *(A *)p; Case &c = *a.c; Rng g(a.seed); for (u64 k = 0; k < a.N; k++) { if (g.chance(1, 4)) { u64 n = 4096ull << g.below(5); void *b = SASBlockAlloc(n); CHECK(b, "alloc", "no block of %lx", n); *(volatile u64 *)b = (u64)b + k; sched_yield(); CHECK(*(volatile u64 *)b == (u64)b + k, "contents", "block %p has a second owner", b); SASBlockDealloc(b, n); continue; }
        SASSeize(); u64 in = __sync_fetch_and_add(&a.s->inside, 1); u64 v = a.s->cell; if (a.pause == 1) sched_yield(); else if (a.pause == 2 && g.chance(1, 20)) usleep(300); u64 in2 = a.s->inside; a.s->cell = v + 1; __sync_fetch_and_sub(&a.s->inside, 1); SASRelease(); CHECK(in == 0 && in2 == 1, "exclusion", "%lu others hold the region's lock", in2 - 1); __sync_fetch_and_add(&a.s->ticks, 1); } return nullptr; }, &as[t]);
    for (auto &x : th) pthread_join(x, nullptr); if (alarm) { itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, nullptr); } }));
  sem_post(go); u64 t0 = nowms(); for (int p : ps) c.wait(p); CHECK(s->cell == s->ticks, "exclusion", "%lu sections under the lock counted %lu", s->ticks, s->cell); c.count("sections", s->ticks); c.count("ms", nowms() - t0);
  c.child([&] { sas_join(c); RegionLists r; check_region(c, r); CHECK(r.used.size() == 1, "conservation", "%lu ranges in use", r.used.size()); }); if (P * T > 2) c.nontrivial();
}
#endif
