// F03: advice about memory and its synchronisation ("sync": the system calls behind them are recorded and can fail)
#include "procs.h"
#include "sphmultipcqueue.h"
#include <atomic>
#include <functional>
struct Call { u64 a, n; int what, arg; bool ok; };  // what: 0 msync, 1 madvise, 2 whole file
static std::vector<Call> calls; static bool recording; static u64 fail_from, seen; static int fail_kind; static std::atomic<u64> failed;
static bool inject(int kind) { if (!recording) return false; u64 k = seen++; if ((fail_kind == 2 || fail_kind == kind) && fail_from && k + 1 >= fail_from) { failed++; errno = kind ? EAGAIN : EIO; return true; } return false; }
extern "C" {
int __real_msync(void *, size_t, int); int __real_madvise(void *, size_t, int); int __real_posix_madvise(void *, size_t, int); int __real_fsync(int); int __real_fdatasync(int);
int __wrap_msync(void *a, size_t n, int f) { int r = inject(0) ? -1 : __real_msync(a, n, f); if (recording) { int e = errno; calls.push_back({(u64)a, n, 0, f, r == 0}); errno = e; } return r; }
int __wrap_madvise(void *a, size_t n, int f) { int r = inject(1) ? -1 : __real_madvise(a, n, f); if (recording) { int e = errno; calls.push_back({(u64)a, n, 1, f, r == 0}); errno = e; } return r; }
int __wrap_posix_madvise(void *a, size_t n, int f) { int r = inject(1) ? EAGAIN : __real_posix_madvise(a, n, f); if (recording) calls.push_back({(u64)a, n, 1, f, r == 0}); return r; }
int __wrap_fsync(int f) { int r = inject(0) ? -1 : __real_fsync(f); if (recording) calls.push_back({0, ~0ull, 2, f, r == 0}); return r; }
int __wrap_fdatasync(int f) { int r = inject(0) ? -1 : __real_fdatasync(f); if (recording) calls.push_back({0, ~0ull, 2, f, r == 0}); return r; }
}
static void listen(Case &c, bool failing) { calls.clear(); seen = 0; failed = 0; fail_from = 0; if (failing) { fail_from = 1 + c.below(3); fail_kind = c.below(3); } recording = true; }
static void quiet() { recording = false; }
// is every byte of the range written to its file by a call that waited for it?
static bool written(u64 a, u64 n) { if (!n) return true; std::vector<Ival> v; for (auto &x : calls) if (x.ok && (x.what == 2 || (x.what == 0 && (x.arg & MS_SYNC)))) { if (x.what == 2) return true; v.push_back({x.a, (x.n + 4095) & ~4095ull}); } std::sort(v.begin(), v.end(), [](const Ival &x, const Ival &y) { return x.a < y.a; }); u64 p = a; for (auto &x : v) if (x.a <= p && x.a + x.n > p) p = x.a + x.n; return p >= a + n; }
struct Blk { u64 a, n; std::vector<u8> copy; };
static void keepcopy(std::vector<Blk> &bs) { for (auto &b : bs) b.copy.assign((u8 *)b.a, (u8 *)b.a + b.n); }
static void intact(Case &c, std::vector<Blk> &bs, const char *what, u64 a, u64 n) {
  for (auto &b : bs) if (memcmp((void *)b.a, b.copy.data(), b.n)) { u64 i = 0; while (((u8 *)b.a)[i] == b.copy[i]) i++; c.fail("changed", "%s on %lx+%lx changed the byte at +%lx of block %lx+%lx", what, a, n, i, b.a, b.n); } }
// the range, as the store's files have it
static void on_file(Case &c, u64 a, u64 n, const char *what) {
  const std::string &d = c.stores[0]; u64 lo = getMemLow(), seg = 256ull << 20;
  while (n) { u64 s = (a - lo) / seg, off = (a - lo) % seg, k = std::min(n, seg - off); char f[300]; snprintf(f, sizeof f, "%s/SAS%05lX.DAT", d.c_str(), s); int fd = open(f, O_RDONLY); if (fd < 0) return; static u8 b[65536]; u64 done = 0;
    while (done < k) { u64 m = std::min<u64>(k - done, sizeof b); memset(b, 0, m); ssize_t r = pread(fd, b, m, off + done); CHECK(r >= 0, "test", "read"); if (memcmp(b, (void *)(a + done), m)) { close(fd); c.fail("file", "after %s the file of segment %lu differs from memory in %lx+%lx", what, s, a + done, m); } done += m; }
    close(fd); a += k; n -= k; }
}
enum { WRITE, PURGE, RELEASE, BRING, SEQ, RANDOM };
static const char *nm[] = {"sasMsyncWrite", "sasMsyncPurge", "sasMsyncRelease", "sasMsyncBring", "sasMsyncSequential", "sasMsyncRandom"};
static int advise(int k, void *p, size_t n, int async) { switch (k) { case WRITE: return sasMsyncWrite(p, n, async); case PURGE: return sasMsyncPurge(p, n, async); case RELEASE: return sasMsyncRelease(p, n); case BRING: return sasMsyncBring(p, n); case SEQ: return sasMsyncSequential(p, n); default: return sasMsyncRandom(p, n); } }
// containers among the blocks, so that "changed" also means their state
static void contents(Case &c, Blk &b) {
  static const int w[] = {4, 1, 1, 1, 1}; void *p = (void *)b.a; u64 k;
  switch (c.weighted(w, 5)) {
    case 0: { u64 t = c.below(1000); for (u64 o = 0; o < b.n; o += 4096) { u64 m = b.n <= 262144 ? 4096 : 64; fill((char *)p + o, m, t + o); } break; }
    case 1: { SASSimpleHeap_t h = SASSimpleHeapInit(p, 0, b.n); if (h) for (k = c.below(20); k > 0; k--) { u64 n = 16 + c.below(b.n / 16); void *q = SASSimpleHeapAlloc(h, n); if (q) fill(q, n, k); } break; }
    case 2: { SPHLFLogger_t l = SPHLFLoggerInit(p, b.n); SPHLFLoggerHandle_t h; if (l) for (k = c.below(30); k > 0; k--) if (SPHLFLoggerAllocTimeStamped(l, 1, 2, c.below(100), &h)) SPHLFLoggerEntryComplete(&h); break; }
    case 3: { SPHSinglePCQueue_t q = SPHSinglePCQueueInitWithStride(p, b.n, 64, 0); SPHLFEntryHandle_t h; if (q) for (k = c.below(30); k > 0; k--) if (SPHSinglePCQueueAllocStrideTimeStamped(q, 1, 2, &h)) SPHSinglePCQueueEntryComplete(&h); break; }
    default: { SPHMPMCQ_t q = SPHMPMCQInitWithStride(p, b.n, 64, 0); if (q) for (k = c.below(30); k > 0; k--) { SPHLFEntryDirect_t e = SPHMPMCQAllocStrideDirectSync(q); if (e) SPHLFEntryDirectComplete(e, SPHMPMCQGetEntryTemplate(q), 1, 2); } }
  }
}
static void pick(Case &c, std::vector<Blk> &bs, u64 &a, u64 &n) {
  Blk &b = bs[c.below(bs.size())]; a = b.a; n = b.n;
  switch (c.below(6)) { case 0: break; case 1: a += c.below(b.n); n = c.below(b.a + b.n - a + 1); break; case 2: a += c.below(b.n); n = c.below(4097); break; case 3: a += c.below(b.n / 4096) * 4096; n = c.below(3) * 4096 + c.below(3) - (c.chance(1, 2) ? 0 : 1); if ((int64_t)n < 0) n = 0; break; case 4: a += c.below(b.n); n = c.below(b.n * 2); break; default: a += b.n - 1 - c.below(100); n = c.below(200); }
}
PBT_TEST_X(F03, ranges, 3, 0, 20, 10) {
  sas_join(c); std::vector<Blk> bs; int k = 1 + c.below(6); for (int i = 0; i < k; i++) { u64 n = 4096ull << (c.rarely(1, 12) ? 10 + c.below(3) : c.below(7)); void *p = SASBlockAlloc(n); CHECK(p, "alloc", "block"); Blk b; b.a = (u64)p; b.n = n; bs.push_back(b); contents(c, bs.back()); }
  u64 hi = (u64)SASBlockAlloc(4096); (void)hi; RegionLists r; r.load(); keepcopy(bs); int steps = 1 + c.below(20); Snap s0; snap(s0);
  for (int i = 0; i < steps; i++) {
    int what = c.below(6), async = c.below(2); u64 a, n; pick(c, bs, a, n); bool over = c.rarely(1, 15); if (over) { n = r.segs.back().a + r.segs.back().n - a + 1 + c.below(1 << 20); } else { u64 e = r.segs.back().a + r.segs.back().n; if (a + n > e) n = e - a; }
    bool bad = c.rarely(1, 5); bool touch = c.chance(1, 2); if (touch) { Blk &b = bs[c.below(bs.size())]; if (c.chance(1, 2)) { u64 o = b.n > 4096 ? 4096 + c.below(b.n - 4096) : 256 + c.below(b.n - 256), m = std::min<u64>(b.n - o, 1 + c.below(5000)); fill((void *)(b.a + o), m, c.below(999)); memcpy(b.copy.data() + o, (void *)(b.a + o), m); } }
    if (c.rarely(1, 4)) { int k = (int)c.below(3); if (k == 0) SASMemSync((void *)a, (long)n, async); else if (k == 1) SASMemBring((void *)a, (long)n, async); else SASMemRemove((void *)a, (long)n, async); static const char *w[] = {"SASMemSync", "SASMemBring", "SASMemRemove"}; c.log("%s(%lx, %lu)", w[k], a, n); intact(c, bs, w[k], a, n); c.count("calls"); }
    listen(c, bad); int rc = advise(what, (void *)a, n, async); quiet(); c.log("%s(%lx, %lu%s) = %d, %lu system calls failed", nm[what], a, n, async ? ", async" : "", rc, (u64)failed);
    if (failed) CHECK(rc != 0, "silent", "%s reports success although the system refused", nm[what]); else if (!over) CHECK(rc == 0, "refused", "%s(%lx, %lu) = %d (%s)", nm[what], a, n, rc, strerror(errno)); else CHECK(rc != 0, "silent", "%s reports success for a range beyond what is mapped", nm[what]);
    if (rc == 0 && !async && (what == WRITE || what == PURGE)) { CHECK(written(a, n), "unwritten", "%s(%lx, %lu) returns before everything is on the file", nm[what], a, n); on_file(c, a, n > (1 << 22) ? 1 << 22 : n, nm[what]); c.count("synchronised"); }
    intact(c, bs, nm[what], a, n); c.count("calls"); if (failed) c.count("failures");
  }
  same(c, s0, [] { static Snap s; snap(s); return s; }(), "lists", "after advice"); c.nontrivial();
  // what the next user of the store finds
  if (c.chance(1, 3)) { SASCleanUp(); c.child([&] { sas_join(c); intact(c, bs, "what the next process sees: advice", 0, 0); SASCleanUp(); }); }
}
// whole compound heaps
PBT_TEST_X(F03, heaps, 2, 0, 20, 10) {
  sas_join(c); RegionLists r0, r1; r0.load(); u64 size = 8192ull << c.below(4), page = 1024ull << c.below(2); bool fixed = c.chance(1, 4); SASCompoundHeap_t h = fixed ? SASCompoundFixedHeapCreate(size) : SASCompoundHeapCreatePageSize(size, page); CHECK(h, "create", "compound heap");
  std::vector<u64> subs; int n = c.below(60); for (int i = 0; i < n; i++) { SASSimpleHeap_t s = SASCompoundHeapAlloc(h); if (!s) break; subs.push_back((u64)s); void *p = SASSimpleHeapAlloc(s, 128 + c.below(256)); if (p) fill(p, 128, i); }
  void *other = SASBlockAlloc(16384); fill(other, 16384, 7);
  std::vector<Blk> bs; u64 total = SASCompoundHeapAllocSpace(h); std::set<u64> heads; heads.insert((u64)h & ~(size - 1)); for (u64 s : subs) heads.insert(s & ~(size - 1)); for (u64 b : heads) { Blk x; x.a = b; x.n = size; bs.push_back(x); } { Blk x; x.a = (u64)other; x.n = 16384; bs.push_back(x); } keepcopy(bs);
  int steps = 1 + c.below(8); c.log("compound heap of %zu blocks of %lu", heads.size(), size);
  for (int i = 0; i < steps; i++) {
    int what = c.below(6), async = c.below(2); bool bad = c.rarely(1, 6); listen(c, bad); u64 got = 0; switch (what) { case WRITE: got = SASCompoundHeapWriteAll(h, async); break; case PURGE: got = SASCompoundHeapPurgeAll(h, async); break; case RELEASE: got = SASCompoundHeapReleaseAll(h); break; case BRING: got = SASCompoundHeapBringAll(h); break; case SEQ: got = SASCompoundHeapSeqAccessAll(h); break; default: got = SASCompoundHeapRandomAccessAll(h); }
    quiet(); c.log("%s on all = %lx, %lu system calls failed", nm[what], got, (u64)failed);
    if (!failed) { CHECK(got == total, "space", "%s on a heap of %lx bytes returns %lx", nm[what], total, got); if (!async && what <= PURGE) for (u64 b : heads) { CHECK(written(b, size), "unwritten", "%s on all returns before block %lx+%lx of %zu is on the file", nm[what], b, size, heads.size()); on_file(c, b, size, nm[what]); } }
    intact(c, bs, nm[what], (u64)h, total); CHECK(SASCompoundHeapAllocSpace(h) == total, "state", "the heap has another size after %s", nm[what]); c.count("calls");
    c.child([&] { alarm(5); SASLock(h, SasUserLock__WRITE); SASUnlock(h); });
    if (c.chance(1, 3)) { bs.clear(); SASSimpleHeap_t s = SASCompoundHeapAlloc(h); if (s) { subs.push_back((u64)s); heads.insert((u64)s & ~(size - 1)); } total = SASCompoundHeapAllocSpace(h); for (u64 b : heads) { Blk x; x.a = b; x.n = size; bs.push_back(x); } keepcopy(bs); }
  }
  void *no = SASBlockAlloc(4096); SASSimpleHeap_t sh = SASSimpleHeapInit(no, 0, 4096); Blk x; x.a = (u64)no; x.n = 4096; bs.clear(); bs.push_back(x); keepcopy(bs); CHECK(SASCompoundHeapWriteAll(sh, 0) == 0 && SASCompoundHeapPurgeAll(sh, 0) == 0 && SASCompoundHeapReleaseAll(sh) == 0 && SASCompoundHeapBringAll(sh) == 0 && SASCompoundHeapSeqAccessAll(sh) == 0 && SASCompoundHeapRandomAccessAll(sh) == 0, "type", "advice about a simple heap as a compound heap is accepted"); intact(c, bs, "refused advice", x.a, x.n);
  if (heads.size() > 1) c.nontrivial();
}
// prefetching containers
PBT_TEST_X(F03, prefetch, 1, 0, 20, 10) {
  sas_join(c); std::vector<Blk> bs; u64 size = 4096ull << c.below(9); int kind = c.below(4); void *p = SASBlockAlloc(size); CHECK(p, "alloc", "block"); u64 stride = 16 * (2 + c.below(20));
  bool circ = c.chance(1, 2); u64 n = c.below(300); switch (kind) {
    case 0: p = SPHLFLoggerInitWithStride(p, size, stride, circ ? SPHLFLOGGER_CIRCULAR : 0); CHECK(p, "create", "logger"); while (n--) { SPHLFLoggerHandle_t h; if (SPHLFLoggerAllocStrideTimeStamped(p, 1, 2, &h)) { fill(h.next, stride - 16, n); if (n & 3) SPHLFLoggerEntryComplete(&h); } } break;
    case 1: p = SPHSinglePCQueueInitWithStride(p, size, stride, 0); CHECK(p, "create", "queue"); while (n--) { SPHLFEntryHandle_t h; if (SPHSinglePCQueueAllocStrideTimeStamped(p, 1, 2, &h)) { fill(h.next, stride - 16, n); SPHSinglePCQueueEntryComplete(&h); } if (n & 1) SPHSinglePCQueueFreeNextEntry(p); } break;
    case 2: p = SPHMPMCQInitWithStride(p, size, stride, 0); CHECK(p, "create", "queue"); while (n--) { SPHLFEntryDirect_t e = SPHMPMCQAllocStrideDirectSync(p); if (e) { fill((char *)e + 16, stride - 16, n); SPHLFEntryDirectComplete(e, SPHMPMCQGetEntryTemplate(p), 1, 2); } } break;
    default: p = SASSimpleHeapInit(p, 0, size); CHECK(p, "create", "heap"); }
  void *nb = SASBlockAlloc(size); Blk b; b.a = (u64)p; b.n = size; bs.push_back(b); b.a = (u64)nb; bs.push_back(b); fill(nb, size, 3); keepcopy(bs);
  for (int i = 0; i < 4; i++) { int what = c.below(3), rc = what == 0 ? SPHLFLoggerPrefetch(p) : what == 1 ? SPHSinglePCQueuePrefetch(p) : SPHMPMCQPrefetch(p); static const char *w[] = {"SPHLFLoggerPrefetch", "SPHSinglePCQueuePrefetch", "SPHMPMCQPrefetch"};
    if (what == kind) CHECK(rc == 0, "refused", "%s = %d", w[what], rc); if (kind == 3 || (what == 0) != (kind == 0)) CHECK(rc != 0, "type", "%s accepts what is something else", w[what]); intact(c, bs, w[what], b.a, size); c.count("calls"); }
  if (kind < 3) c.nontrivial();
}
// advice while others write
struct Arg { u64 a, n; int k; std::atomic<int> *stop; std::atomic<int> *bad; u64 seed; };
PBT_TEST_X(F03, busy, 1, pbt::NONDET, 20, 20) {
  sas_join(c); int T = 1 + c.below(3); u64 size = 4096ull << (1 + c.below(6)); bool procs = c.chance(1, 2); std::atomic<int> *stop = shared<std::atomic<int>>(), *bad = shared<std::atomic<int>>(); std::vector<Arg> as; u64 base = (u64)SASBlockAlloc(size); CHECK(base, "alloc", "block"); u64 share = size / 4, rounds = 30 + c.below(c.thorough ? 300 : 100);
  for (int t = 0; t < T; t++) as.push_back({base + t * share, share, t, stop, bad, c.raw()});
  auto work = [](Arg *x) { Rng r(x->seed); u64 *p = (u64 *)x->a; u64 words = x->n / 8; std::vector<u64> m(words); for (u64 i = 0; i < words; i++) p[i] = m[i] = i; while (!*x->stop) { u64 i = r.below(words), k = 1 + r.below(64); for (u64 j = i; j < words && j < i + k; j++) { if (p[j] != m[j]) { *x->bad = 1; return; } p[j] = m[j] = r.next(); } } for (u64 i = 0; i < words; i++) if (p[i] != m[i]) *x->bad = 1; };
  std::vector<int> ps; std::vector<pthread_t> ts; for (auto &x : as) if (procs) ps.push_back(c.start([&] { work(&x); })); else { static void (*w)(Arg *); w = work; pthread_t t; pthread_create(&t, nullptr, [](void *q) -> void * { w((Arg *)q); return nullptr; }, &x); ts.push_back(t); }
  Rng r(c.raw()); int refused = 0; for (u64 i = 0; i < rounds; i++) { u64 o = r.below(size), n = r.below(size - o + 1); int k = r.below(6); if (advise(k, (void *)(base + o), n, r.below(2))) refused++; }
  *stop = 1; for (auto t : ts) pthread_join(t, nullptr); for (int p : ps) c.wait(p);
  CHECK(!*bad, "changed", "bytes written by %d %s changed under advice", T, procs ? "processes" : "threads"); CHECK(!refused, "refused", "%d of %lu calls failed", refused, rounds); c.count("calls", rounds); c.nontrivial();
}
