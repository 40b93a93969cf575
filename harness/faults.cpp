// A06: running out of files, disk, address space, lock memory, region or bookkeeping room
#include "procs.h"
#include "sphmultipcqueue.h"
#include <sys/resource.h>
#include <stdarg.h>
#include <malloc.h>
// ---- injected failures of the calls the library makes
enum { W_OPEN, W_FTRUNCATE, W_MMAP, W_SHMGET, W_SHMAT, W_CLOSE, NW };
struct Wrap { int on, left, err, hit, once; };
static Wrap wr[NW];
static bool hit(int k) { Wrap &w = wr[k]; if (!w.on) return false; if (w.left > 0) { w.left--; return false; } w.hit++; if (w.once) w.on = 0; errno = w.err; return true; }
extern "C" {
int __real_open(const char *, int, ...); int __real_ftruncate(int, off_t); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_shmget(key_t, size_t, int); void *__real_shmat(int, const void *, int); int __real_close(int);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return hit(W_OPEN) ? -1 : __real_open(p, f, m); }
int __wrap_ftruncate(int fd, off_t n) { return hit(W_FTRUNCATE) ? -1 : __real_ftruncate(fd, n); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int fd, off_t o) { return hit(W_MMAP) ? MAP_FAILED : __real_mmap(p, n, a, b, fd, o); }
int __wrap_shmget(key_t k, size_t n, int f) { return hit(W_SHMGET) ? -1 : __real_shmget(k, n, f); }
void *__wrap_shmat(int i, const void *p, int f) { return hit(W_SHMAT) ? (void *)-1 : __real_shmat(i, p, f); }
int __wrap_close(int fd) { if (hit(W_CLOSE)) { int e = errno; __real_close(fd); errno = e; return -1; } return __real_close(fd); }
}
enum { F_FILES, F_SPACE, F_SIZE, F_DIRS, F_JUNK, F_AWAY, F_OPEN, F_TRUNC, F_MAP, F_CLOSE, NF, F_SHMGET = NF, F_SHMAT, NFJ };
static const char *fname[] = {"no descriptor left", "no address space left", "file size limit", "directories in the way", "files in the way", "the store directory is gone", "open fails", "ftruncate fails", "mmap fails", "close fails", "shmget fails", "shmat fails"};
static rlimit keep[3]; static std::vector<std::string> put; static std::string away;
static u64 vmsize() { FILE *f = fopen("/proc/self/statm", "r"); unsigned long n = 0; if (fscanf(f, "%lu", &n) != 1) n = 0; fclose(f); return n * 4096; }
static bool dir_fault(int f) { return f == F_DIRS || f == F_JUNK || f == F_AWAY; }
// the first segment of every unallocated range: whatever comes next is one of them
static void obstruct(const std::string &dir, bool files) { RegionLists r; RegionLists::get(SASListFreeRegion, r.regionFree); for (auto &x : r.regionFree) { char b[40]; snprintf(b, sizeof b, "/SAS%05lX.DAT", (x.a - getMemLow()) >> 28); std::string n = dir + b; if (!files) { if (!mkdir(n.c_str(), 0777)) put.push_back(n); } else { int fd = __real_open(n.c_str(), O_CREAT | O_EXCL | O_RDWR, 0644); if (fd >= 0) { if (write(fd, "not yours", 9) != 9) abort(); __real_close(fd); put.push_back(n); } } } }
static void arm(Case &c, int f, const std::string &dir, u64 extra) {
  put.clear(); memset(wr, 0, sizeof wr); getrlimit(RLIMIT_NOFILE, &keep[0]); getrlimit(RLIMIT_AS, &keep[1]); getrlimit(RLIMIT_FSIZE, &keep[2]);
  rlimit r; static const int errs[] = {ENOSPC, EIO, ENOMEM, EACCES, EMFILE, EINTR, ENOENT, EDQUOT};
  int e = errs[c.below(8)];
  switch (f) {
    case F_FILES: { int fd = dup(0); __real_close(fd); r = keep[0]; r.rlim_cur = fd; CHECK(!setrlimit(RLIMIT_NOFILE, &r), "test", "rlimit"); break; }
    case F_SPACE: r = keep[1]; r.rlim_cur = vmsize() + extra; CHECK(!setrlimit(RLIMIT_AS, &r), "test", "rlimit"); break;
    case F_SIZE: signal(SIGXFSZ, SIG_IGN); r = keep[2]; r.rlim_cur = 1 << 20; CHECK(!setrlimit(RLIMIT_FSIZE, &r), "test", "rlimit"); break;
    case F_DIRS: obstruct(dir, false); break;
    case F_JUNK: obstruct(dir, true); break;
    case F_AWAY: away = dir; CHECK(!rename(dir.c_str(), (dir + ".away").c_str()), "test", "rename"); break;
    default: { static const int map[] = {W_OPEN, W_FTRUNCATE, W_MMAP, W_CLOSE, W_SHMGET, W_SHMAT}; Wrap &w = wr[map[f - F_OPEN]]; w.err = e; w.on = 1; w.left = (int)extra; } }
}
static void lift(Case &c, int f) {
  memset(wr, 0, sizeof wr); setrlimit(RLIMIT_NOFILE, &keep[0]); setrlimit(RLIMIT_AS, &keep[1]); setrlimit(RLIMIT_FSIZE, &keep[2]);
  for (auto &n : put) { if (f == F_DIRS) CHECK(!rmdir(n.c_str()), "files", "the directory %s is gone", n.c_str()); else { char b[16] = {0}; int fd = __real_open(n.c_str(), O_RDONLY); CHECK(fd >= 0 && read(fd, b, 15) == 9 && !strcmp(b, "not yours"), "files", "the foreign file %s was changed or removed", n.c_str()); __real_close(fd); unlink(n.c_str()); } }
  put.clear(); if (f == F_AWAY) CHECK(!rename((away + ".away").c_str(), away.c_str()), "test", "rename back");
}
static std::string join_list(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
struct State { Snap s; std::vector<std::string> f; int fd; std::string m; };
// looking at the process must not fail because of the fault
struct Raise { rlimit now[3]; Wrap w[NW]; Raise() { static const int w3[] = {RLIMIT_NOFILE, RLIMIT_AS, RLIMIT_FSIZE}; for (int i = 0; i < 3; i++) { getrlimit((__rlimit_resource)w3[i], &now[i]); rlimit r = now[i]; r.rlim_cur = r.rlim_max; setrlimit((__rlimit_resource)w3[i], &r); } memcpy(w, wr, sizeof w); memset(wr, 0, sizeof wr); } ~Raise() { memcpy(wr, w, sizeof w); setrlimit(RLIMIT_NOFILE, &now[0]); setrlimit(RLIMIT_AS, &now[1]); setrlimit(RLIMIT_FSIZE, &now[2]); } };
// no memory of the harness itself has to be obtained under the fault
static void warm() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 0x7fffffff); void *p = malloc(48 << 20); memset(p, 1, 1 << 20); free(p); fds(); mapped(); }
static void take(State &x, const std::string &dir, bool gone) { Raise raise; snap(x.s); if (!gone) x.f = files(dir); x.fd = fds(); x.m = mapped(); }
static void unchanged(Case &c, const State &a, const std::string &dir, bool gone, const char *when, bool commit = false) { State b; take(b, dir, gone); if (!commit) same(c, a.s, b.s, "changed", when); else { CHECK(a.s.bytes[0] + a.s.bytes[1] == b.s.bytes[0] + b.s.bytes[1], "leak", "%s: %lx bytes were available, now %lx", when, a.s.bytes[0] + a.s.bytes[1], b.s.bytes[0] + b.s.bytes[1]); for (int i = 2; i < 5; i++) CHECK(a.s.n[i] == b.s.n[i] && a.s.h[i] == b.s.h[i], "changed", "%s: the %s list changed", when, lname[i]); } if (!gone) CHECK(a.f == b.f, "files", "%s: the directory held %s and holds %s", when, join_list(a.f).c_str(), join_list(b.f).c_str()); CHECK(a.fd == b.fd, "descriptors", "%s: %d descriptors were open, now %d", when, a.fd, b.fd); CHECK(a.m == b.m, "mapped", "%s: mappings were\n%sand are\n%s", when, a.m.c_str(), b.m.c_str()); }
static bool fits(u64 n) { RegionLists r; RegionLists::get(SASListFreeMem, r.free_); RegionLists::get(SASListUncommittedMem, r.uncommitted); for (auto *v : {&r.free_, &r.uncommitted}) for (auto &x : *v) if (x.n >= n) return true; return false; }
static unsigned short stride_for(u64 n) { return n >= 1 << 20 ? 32768 : 64; }
struct Made { const char *name; void *(*f)(u64); };
static const Made makers[] = {
  {"simple heap", [](u64 n) { return (void *)SASSimpleHeapCreate(n); }}, {"simple stack", [](u64 n) { return (void *)SASSimpleStackCreate(n); }}, {"simple space", [](u64 n) { return (void *)SASSimpleSpaceCreate(n); }},
  {"compound heap", [](u64 n) { return (void *)SASCompoundHeapCreate(n); }}, {"compound heap with pages", [](u64 n) { return (void *)SASCompoundHeapCreatePageSize(n, 8192); }}, {"index", [](u64 n) { return (void *)SASIndexCreate(n); }}, {"string tree", [](u64 n) { return (void *)SASStringBTreeCreate(n); }},
  {"context", [](u64 n) { return (void *)SPHContextCreate(n); }}, {"lock-free heap", [](u64 n) { return (void *)SPHLockFreeHeapCreate(n, 64); }}, {"queue", [](u64 n) { return (void *)SPHSinglePCQueueCreateWithStride(n, 64); }}, {"logger", [](u64 n) { return (void *)SPHLFLoggerCreate(n); }}, {"portal", [](u64 n) { return (void *)SPHLogPortalCreate(n); }}, {"fixed compound heap", [](u64 n) { return (void *)SASCompoundFixedHeapCreate(n); }},
  {"plain queue", [](u64 n) { return (void *)SPHSinglePCQueueCreate(n); }}, {"circular logger", [](u64 n) { return (void *)SPHLFCircularLoggerCreate(n, stride_for(n)); }}, {"plain mpmc queue", [](u64 n) { return (void *)SPHMPMCQCreate(n); }}, {"mpmc queue", [](u64 n) { return (void *)SPHMPMCQCreateWithStride(n, stride_for(n)); }},
  {"fixed index", [](u64 n) { return (void *)SASIndexFixedCreate(n); }}, {"fixed string tree", [](u64 n) { return (void *)SASStringBTreeFixedCreate(n); }}, {"index with pages", [](u64 n) { return (void *)SASIndexCreatePageSize(n, 8192); }}, {"string tree with pages", [](u64 n) { return (void *)SASStringBTreeCreatePageSize(n, 8192); }},
  {"index node", [](u64 n) { return (void *)SASIndexNodeCreate(n); }}, {"string node", [](u64 n) { return (void *)SASStringBTreeNodeCreate(n); }} };
constexpr int NM = sizeof makers / sizeof *makers;

// a partner process that is not affected by what happens to this one
struct Partner { sem_t go, done; int cmd; u64 a, b, r; int pid; };
static void partner(Case &c, Partner &p, World &w) {
  for (;;) { while (sem_wait(&p.go)) ;
    switch (p.cmd) { case 0: return; case 1: sas_join(c); break; case 2: world::verify(c, w); break; case 3: p.r = (u64)SASBlockAlloc(p.a); if (p.r) world::bfill(p.r, p.a, p.b); break; case 4: { RegionLists r; world::account(c, w, r); break; } case 5: SASBlockDealloc((void *)p.a, p.b); break; }
    sem_post(&p.done); } }
static void ask(Case &c, Partner &p, int cmd, u64 a = 0, u64 b = 0) { p.cmd = cmd; p.a = a; p.b = b; sem_post(&p.go); for (int k = 0;; k++) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; if (!sem_timedwait(&p.done, &ts)) return; if (c.sh->status != RUNNING) _exit(3); if (k > 15) c.fail("hang", "another process's call does not return"); } }

PBT_TEST_X(A06, segments, 4, 0, 40, 20) {
  World &w = *world::make(); std::string dir = c.stores[0]; Partner *pp = nullptr; warm();
  if (c.chance(1, 2)) { pp = shared<Partner>(); sem_init(&pp->go, 1, 0); sem_init(&pp->done, 1, 0); pp->pid = c.start([&] { partner(c, *pp, w); }); }
  sas_join(c); if (pp) ask(c, *pp, 1);
  u64 n0 = c.below(30); for (u64 i = 0; i < n0; i++) world::step(c, w, 28);
  u64 rounds = c.range(1, c.thorough ? 6 : 3), refused = 0;
  for (u64 r = 0; r < rounds; r++) {
    int f = (int)c.below(NF); u64 extra = f == F_SPACE ? c.below(200) << 20 : c.chance(1, 2) ? 0 : c.below(4); bool sure = f < F_OPEN ? (f != F_SPACE || true) : extra == 0, gone = f == F_AWAY;
    c.log("fault: %s%s", fname[f], f >= F_OPEN && extra ? ", later" : "");
    arm(c, f, dir, extra); u64 tries = c.range(1, 6); u64 last = 0;
    for (u64 k = 0; k < tries; k++) {
      State b; take(b, dir, gone); 
      if (c.chance(2, 3)) { u64 n = 4096ull << c.range(0, 16); if (c.chance(1, 2)) n = 1ull << c.range(24, 28); bool fit = fits(n); u64 a = (u64)SASBlockAlloc(n); c.log("block of %lx -> %lx (%s)", n, a, fit ? "there is room" : "needs a segment");
        if (fit) CHECK(a, "refused", "a block of %lx was refused though there is room for it", n);
        else if (sure) CHECK(!a, "obtained", "a block of %lx was obtained without a segment", n);
        if (a) { CHECK(a % n == 0, "align", "block %lx of %lx", a, n); for (int i = 0; i < w.nblk; i++) CHECK(a + n <= w.blk[i].a || w.blk[i].a + w.blk[i].n <= a, "overlap", "block %lx+%lx overlaps %lx", a, n, w.blk[i].a); if (w.nblk < 40) { u64 t = w.tag += 5; world::bfill(a, n, t); w.blk[w.nblk++] = {a, n, t}; } else SASBlockDealloc((void *)a, n); }
        else { unchanged(c, b, dir, gone, "a refused block", !sure); refused++; last = n; } }
      else if (c.chance(1, 3)) { int m = (int)c.below(NM); u64 n = 1ull << c.range(25, 28); bool fit = fits(n); if (!fit || m > 4) { void *o = makers[m].f(n); c.log("%s of %lx -> %p (%s)", makers[m].name, n, o, fit ? "there is room" : "needs a segment");
          if (!fit && sure) CHECK(!o, "obtained", "a %s of %lx was obtained without a segment", makers[m].name, n); if (!o) { if (fit || sure) unchanged(c, b, dir, gone, "a refused object", fit); refused++; last = n; } else SASBlockDealloc(o, n); } }
      else if (w.nblk && c.chance(1, 2)) { u64 i = c.below(w.nblk); auto x = w.blk[i]; CHECK(world::bcheck(x.a, x.n, x.tag), "contents", "block %lx+%lx changed", x.a, x.n); c.log("free block %lx+%lx", x.a, x.n); SASBlockDealloc((void *)x.a, x.n); world::del(w.blk, w.nblk, i); }
      else world::verify(c, w);
      if (c.rarely(1, 3)) { SASSeize(); SASRelease(); } }
    if (pp && !gone && c.chance(2, 3)) { ask(c, *pp, 2); ask(c, *pp, 4); if (!dir_fault(f)) { u64 n = 4096ull << c.range(0, 16); u64 t = w.tag += 5; ask(c, *pp, 3, n, t); c.log("another process: block of %lx -> %lx", n, pp->r); CHECK(pp->r, "refused", "a process without the fault cannot allocate %lx", n); lift(c, f); u64 a = pp->r; CHECK(world::bcheck(a, n, t), "contents", "block %lx of the other process differs", a); for (int i = 0; i < w.nblk; i++) CHECK(a + n <= w.blk[i].a || w.blk[i].a + w.blk[i].n <= a, "overlap", "block %lx+%lx overlaps %lx", a, n, w.blk[i].a); SASBlockDealloc((void *)a, n); arm(c, f, dir, extra); } }
    lift(c, f); c.log("fault over"); world::verify(c, w); { RegionLists rl; world::account(c, w, rl); }
    if (last) { u64 a = (u64)SASBlockAlloc(last); CHECK(a, "refused", "a block of %lx is still refused after the fault was over", last); fill((void *)a, 4096, 7); CHECK(check_fill((void *)a, 4096, 7) < 0, "contents", "new block %lx", a); for (int i = 0; i < w.nblk; i++) CHECK(a + last <= w.blk[i].a || w.blk[i].a + w.blk[i].n <= a, "overlap", "block %lx+%lx overlaps %lx", a, last, w.blk[i].a); if (c.chance(1, 2)) SASBlockDealloc((void *)a, last); else if (w.nblk < 40) { u64 t = w.tag += 5; world::bfill(a, last, t); w.blk[w.nblk++] = {a, last, t}; } else SASBlockDealloc((void *)a, last); }
    for (u64 i = 0, m = c.below(8); i < m; i++) world::step(c, w, 28); }
  world::verify(c, w); { RegionLists rl; world::account(c, w, rl); }
  if (pp) { ask(c, *pp, 2); pp->cmd = 0; sem_post(&pp->go); c.wait(pp->pid); }
  if (refused) c.nontrivial(); c.count("refusals", refused);
}
// ---- joins that fail
static sigjmp_buf jb; static volatile int segvs;
static void on_segv(int) { segvs++; siglongjmp(jb, 1); }
static void handler_works(Case &c, const char *when) { int before = segvs; if (!sigsetjmp(jb, 1)) { *(volatile int *)16; c.fail("test", "no fault"); } CHECK(segvs == before + 1, "handler", "%s the program's own SIGSEGV handler does not run", when); }
PBT_TEST_X(A06, joins, 2, 0, 40, 20) {
  World &w = *world::make(); Snap &sn = *shared<Snap>(), &fresh = *shared<Snap>(); std::string dir = c.stores[0]; bool exists = c.chance(1, 2);
  c.child([&] { CHECK(!SASJoinRegionByName(c.stores[1].c_str()), "join", "reference store"); snap(fresh); });
  if (exists) { u64 ops = c.range(1, 25); c.child([&] { sas_join(c); for (u64 i = 0; i < ops; i++) world::step(c, w, 28); snap(sn); }); if (c.chance(1, 3)) { int id = shmget(ftok(dir.c_str(), 'L' + 64), 0, 0); shmctl(id, IPC_RMID, nullptr); } }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_segv; sa.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr);
  warm(); u64 n = c.range(1, 3), failed = 0;
  for (u64 k = 0; k < n; k++) {
    int f = (int)c.below(NFJ + 2); u64 extra = f == F_SPACE ? c.below(600) << 20 : c.chance(2, 3) ? 0 : c.below(5); bool lock0 = lock_table(dir);
    if (f == F_DIRS || f == F_JUNK) { std::string nm = f == F_DIRS ? dir + "/missing" : dir + "/file"; if (f == F_JUNK) { int fd = __real_open(nm.c_str(), O_CREAT | O_RDWR, 0644); __real_close(fd); } auto f0 = files(dir); int fd0 = fds(); std::string m0 = mapped();
      c.log("join %s", f == F_DIRS ? "a missing directory" : "a file"); int rc = SASJoinRegionByName((nm + (c.chance(1, 3) ? "/" : "")).c_str()); CHECK(rc, "joined", "joined %s", nm.c_str()); CHECK(files(dir) == f0 && fds() == fd0 && mapped() == m0, "changed", "joining %s failed and left something behind", nm.c_str()); handler_works(c, "after a failed join"); unlink(nm.c_str()); failed++; continue; }
    bool gone = f == F_AWAY; if (gone && c.chance(1, 2)) f = F_OPEN, gone = false; if (f >= NFJ) continue;
    auto f0 = files(dir); int fd0 = fds(); std::string m0 = mapped(); c.log("join with fault: %s, %lx", fname[f], extra);
    static volatile int dummy; (void)dummy; arm(c, f, dir, extra); int rc = SASJoinRegionByName(dir.c_str());
    int hits = 0; for (auto &x : wr) hits += x.hit; if (gone || f == F_FILES || (f == F_SIZE && f0.empty()) || (f > F_OPEN && f != F_CLOSE && extra == 0 && hits) ) CHECK(rc, "joined", "the join succeeded though %s", fname[f]);
    lift(c, f); c.log(" = %d", rc);
    if (rc) { failed++; CHECK(fds() == fd0, "descriptors", "%d descriptors open after a failed join, %d before", fds(), fd0); CHECK(mapped() == m0, "mapped", "after a failed join still mapped: %s", mapped().c_str()); handler_works(c, "after a failed join");
      auto f1 = files(dir); if (f1 != f0) { CHECK(f0.empty() && f1.size() == 1 && f1[0] == "SAS00000.DAT", "files", "a failed join left %s", join_list(f1).c_str()); CHECK(f == F_SHMGET || f == F_SHMAT || f == F_SPACE, "files", "a failed join (%s) left %s", fname[f], join_list(f1).c_str()); } (void)lock0; }
    else { Snap x; snap(x); if (exists) { same(c, sn, x, "attach", "after a join under a fault"); world::verify(c, w); } else same(c, fresh, x, "attach", "after a join under a fault"); SASCleanUp(); CHECK(fds() == fd0 && mapped() == m0, "leave", "something is left after leaving: %s", mapped().c_str()); handler_works(c, "after leaving"); } }
  int how = (int)c.below(2); int rc; if (how) { setenv("SASSTOREPATH", dir.c_str(), 1); rc = SASJoinRegion(); } else rc = SASJoinRegionByName(dir.c_str());
  CHECK(!rc, "join", "joining after the faults = %d", rc); Snap x; snap(x); if (exists) { same(c, sn, x, "attach", "after failed joins"); world::verify(c, w); } else same(c, fresh, x, "attach", "after failed joins");
  for (int i = 0; i < 10; i++) world::step(c, w); world::verify(c, w); RegionLists r; world::account(c, w, r); SASLock((void *)(getMemLow() + 64), SasUserLock__WRITE); SASUnlock((void *)(getMemLow() + 64));
  if (failed) c.nontrivial(); c.count("failed-joins", failed);
}
// ---- nothing left in the region: every creator and every expansion is refused
static void drain(std::vector<World::P> &v) { for (int s = 16; s >= 0; s--) for (;;) { u64 n = 4096ull << s; u64 a = (u64)SASBlockAlloc(n); if (!a) break; v.push_back({a, n, 0}); } }
PBT_TEST_X(A06, drained, 2, 0, 40, 20) {
  World &w = *world::make(); std::string dir = c.stores[0]; warm(); sas_join(c); u64 n0 = c.below(20); for (u64 i = 0; i < n0; i++) world::step(c, w);
  int kind = (int)c.below(4); u64 sz = 4096ull << c.range(2, 6);
  SASIndex_t ix = nullptr; SASStringBTree_t st = nullptr; SASCompoundHeap_t ch = nullptr; SPHContext_t cx = nullptr; std::map<u64, u64> m; std::vector<std::pair<u64, u64>> subs;
  if (kind == 0) ix = SASIndexCreate(sz); else if (kind == 1) st = SASStringBTreeCreate(sz); else if (kind == 2) { ch = SASCompoundHeapCreate(sz); } else cx = SPHContextCreate(sz);
  CHECK(ix || st || ch || cx, "create", "container of kind %d, %lx bytes", kind, sz);
  int f = (int)c.below(NF); if (f == F_SPACE) f = F_MAP; c.log("fault: %s; container kind %d of %lx", fname[f], kind, sz); arm(c, f, dir, 0); bool gone = f == F_AWAY;
  std::vector<World::P> v; drain(v); { RegionLists r; r.load(); CHECK(r.avail() == 0, "test", "not drained: %lx", r.avail()); }
  // without room not even the root of the projects can be made
  bool proj = c.chance(1, 2); void *finder = getSASFinder(); if (proj) { setSASFinder(nullptr); for (u64 i = 0, t = c.range(1, 3); i < t; i++) { State b; take(b, dir, gone); bool alt = c.chance(1, 2); SPHContext_t cur = getCurrentProjectContext(), p = alt ? SPHSetupAltProjectContext("late") : SPHSetupProjectContext("late"); c.log("%s project without room -> %p", alt ? "alt" : "current", p); CHECK(!p, "obtained", "a project was set up without room"); CHECK(!getSASFinder() && (getCurrentProjectContext() == cur || (!alt && !getCurrentProjectContext())), "changed", "a refused project left root %p, current %p", getSASFinder(), getCurrentProjectContext()); unchanged(c, b, dir, gone, "a refused project"); } setSASFinder(finder); }
  // holes of random sizes
  u64 holes = c.below(4); for (u64 i = 0; i < holes && !v.empty(); i++) { u64 k = v.size() - 1 - c.below(std::min<u64>(v.size(), 4)); SASBlockDealloc((void *)v[k].a, v[k].n); c.log("hole of %lx", v[k].n); v.erase(v.begin() + k); }
  u64 made = 0, refused = 0; std::vector<World::P> objs;
  for (u64 i = 0, t = c.range(1, 12); i < t; i++) { int k = (int)c.below(NM); u64 n = 4096ull << (c.chance(2, 3) ? c.below(5) : c.below(17)); if (k >= 3 && n < 16384) n = 16384; State b; take(b, dir, gone); bool fit = fits(n); void *o = makers[k].f(n); c.log("%s of %lx -> %p (%s)", makers[k].name, n, o, fit ? "room" : "no room");
    if (!fit) CHECK(!o, "obtained", "a %s of %lx was created without room", makers[k].name, n);
    if (!o) { unchanged(c, b, dir, gone, "a refused object", fit); refused++; } else { made++; SASBlockDealloc(o, n); } }
  u64 puts = c.range(20, c.thorough ? 6000 : 2500), last = 0; bool full = false; SASIndexKey_t ky; char kb[40];
  auto put = [&](u64 k) -> int { u64 val = k * 16 + 16; int rc; if (ix) rc = SASIndexPut(ix, world::key(&ky, k), (void *)val); else if (st) { snprintf(kb, sizeof kb, "k%lu", k); rc = SASStringBTreePut(st, kb, (void *)val); } else if (cx) { snprintf(kb, sizeof kb, "k%lu", k); rc = !SPHContextAddName(cx, kb, (void *)val); } else { void *h = SASCompoundHeapAlloc(ch); if (h) { val = (u64)h; for (auto &s : subs) CHECK(s.first != val, "overlap", "sub-heap %p twice", h); subs.push_back({val, k}); fill((char *)h + 1024, 512, k); } rc = h != nullptr; } if (rc) m[k] = val; return rc; };
  auto check = [&](const char *when) { if (ch) { for (auto &s : subs) CHECK(check_fill((char *)s.first + 1024, 512, s.second) < 0, "contents", "%s sub-heap %lx changed", when, s.first); return; } for (auto &e : m) { void *g; if (ix) g = SASIndexGet(ix, world::key(&ky, e.first)); else { snprintf(kb, sizeof kb, "k%lu", e.first); g = st ? SASStringBTreeGet(st, kb) : SPHContextFindByName(cx, kb); } CHECK((u64)g == e.second, "contents", "%s key %lu gives %p, stored %lx", when, e.first, g, e.second); } };
  u64 mul = c.chance(1, 2) ? 1 : 7919; for (u64 i = 1; i <= puts && !full; i++) { last = i * mul % 100003; if (!put(last)) { full = true; c.log("refused after %lu", i - 1); } }
  check("under the fault"); if (full) { State b; take(b, dir, gone); for (int i = 0; i < 3; i++) if (ch || cx == nullptr || true) { if (put(last)) { c.log("a repeated request succeeded"); full = false; break; } } if (full && !cx) unchanged(c, b, dir, gone, "a refused insertion"); check("after refusals"); }
  world::verify(c, w); lift(c, f); c.log("fault over");
  if (full) { CHECK(put(last), "refused", "the refused insertion of %lu is still refused after the fault was over", last); for (u64 i = 1; i < 60; i++) CHECK(put(200000 + i), "refused", "insertion %lu after the fault", i); }
  check("after the fault"); world::verify(c, w);
  for (auto &x : v) SASBlockDealloc((void *)x.a, x.n);
  for (int i = 0; i < 8; i++) world::step(c, w); world::verify(c, w); check("at the end"); RegionLists r; world::account(c, w, r);
  if (proj) { setSASFinder(nullptr); CHECK(SPHSetupProjectContext("late") && getProjectContextByName("late") == getCurrentProjectContext(), "refused", "a project is still refused after the fault was over"); }
  if (ix) SASIndexDestroy(ix); if (st) SASStringBTreeDestroy(st); if (ch) SASCompoundHeapDestroy(ch);
  if (refused || full) c.nontrivial(); c.count("refused", refused); c.count("full", full); c.count("made", made);
}
// ---- no room left for the bookkeeping itself
PBT_TEST_X(A06, bookkeeping, 0.6, 0, 120, 60) {
  warm(); sas_join(c); Snap s0; snap(s0); bool big = c.rarely(1, 4); int shape = (int)c.below(4); std::vector<World::P> v; std::vector<Ival> freed; u64 pieces = 0; bool refusedp = false;
  c.log("%s", big ? "whole segments" : "pieces freed here and there");
  auto keep1 = [&](u64 a, u64 n) { if (pieces++ % 97 == 0) { fill((void *)a, 4096, a); v.push_back({a, n, a}); } else v.push_back({a, n, 0}); };
  if (big) { u64 n = 1ull << c.range(26, 28), m = c.chance(1, 2) ? 40000 : c.range(20000, 32000); for (u64 i = 0; i < m; i++) { u64 a = (u64)SASBlockAlloc(n); if (!a) { refusedp = true; break; } keep1(a, n); } }
  else for (int part = 0; part <= 16 && !refusedp; part++) { u64 n = 4096ull << part, m = c.range(1500, 5000); std::vector<u64> all; for (u64 k = 0; k < m; k++) { u64 a = (u64)SASBlockAlloc(n); if (!a) { refusedp = true; break; } all.push_back(a); }
      std::sort(all.begin(), all.end()); for (size_t k = 0; k < all.size(); k++) { bool fr = shape == 0 ? k & 1 : shape == 1 ? k % 3 == 0 : shape == 2 ? k % 3 != 0 : ((k * 7919) >> 4) & 1; if (fr && !refusedp) { SASBlockDealloc((void *)all[k], n); freed.push_back({all[k], n}); } else keep1(all[k], n); } }
  c.count("pieces", pieces); c.count("refused-mode", refusedp); c.log("%lu pieces kept, refused: %d, room %lx", pieces, refusedp, SASAnchorFreeSpace());
  RegionLists r; r.load(); for (auto &x : v) if (x.tag) CHECK(check_fill((void *)x.a, 4096, x.tag) < 0, "contents", "block %lx changed", x.a);
  { Ivals iv; for (auto &x : v) { CHECK(!iv.hits(x.a, x.n), "overlap", "block %lx+%lx overlaps another", x.a, x.n); iv.add(x.a, x.n); }
    // a piece that could not be given back for lack of room is still in use
    u64 stuck = 0; for (auto &x : freed) { auto it = std::upper_bound(r.used.begin(), r.used.end(), x.a, [](u64 a, const Ival &y) { return a < y.a; }); if (it == r.used.begin()) continue; --it; if (it->a + it->n > x.a && !iv.hits(x.a, x.n)) { iv.add(x.a, x.n); v.push_back({x.a, x.n, 0}); stuck++; } } CHECK(!stuck || refusedp, "leak", "%lu freed pieces are still in use, with room left", stuck); c.count("stuck", stuck); u64 need = 0; for (auto &x : v) need += x.n; CHECK(RegionLists::sum(r.used) >= need, "in-use", "%lx bytes are in use, %lx allocated", RegionLists::sum(r.used), need); for (auto &x : r.free_) CHECK(!iv.hits(x.a, x.n), "overlap", "free range %lx+%lx meets a live block", x.a, x.n); for (auto &x : r.uncommitted) CHECK(!iv.hits(x.a, x.n), "overlap", "uncommitted range %lx+%lx meets a live block", x.a, x.n); }
  if (refusedp) { Snap a, b; snap(a); for (int k = 0; k < 3; k++) SASBlockAlloc(4096ull << 16); snap(b); same(c, a, b, "changed", "refused requests"); c.nontrivial(); }
  // give everything back; what cannot be accounted for yet stays in use and is given back later
  u64 order = c.below(3); if (order == 1) std::reverse(v.begin(), v.end()); else if (order == 2) { Rng g(c.below(1000)); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); }
  u64 avail = r.avail(), passes = 0; while (!v.empty()) { std::vector<World::P> left; for (auto &x : v) { if (x.tag) CHECK(check_fill((void *)x.a, 4096, x.tag) < 0, "contents", "block %lx changed", x.a); SASBlockDealloc((void *)x.a, x.n); } r.load(); u64 now = r.avail(); for (auto &x : v) { bool used = false; auto it = std::upper_bound(r.used.begin(), r.used.end(), x.a, [](u64 a, const Ival &y) { return a < y.a; }); if (it != r.used.begin()) { --it; used = it->a + it->n > x.a; } if (used) left.push_back(x); } CHECK(left.empty() || now > avail, "leak", "%lu blocks cannot be given back", left.size()); avail = now; v.swap(left); CHECK(++passes < 60, "leak", "%lu blocks still cannot be given back", v.size()); }
  c.log("%lu passes", passes); c.count("passes", passes); check_region(c, r); CHECK(RegionLists::sum(r.used) == s0.bytes[2], "leak", "%lx bytes in use at the end, %lx at the start", RegionLists::sum(r.used), s0.bytes[2]);
  void *p = SASBlockAlloc(0x10000000); CHECK(p || SASAnchorFreeSpace() < 2048, "refused", "no segment after everything was freed");
}
