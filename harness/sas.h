// What the harnesses share about the library: headers and region-wide oracles.
#ifndef VERIF_SAS_H
#define VERIF_SAS_H
#include "pbt.h"
#include <map>
#include <set>
#include <algorithm>
#include <memory>
extern "C" {
#include <unistd.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <pthread.h>
#include <sched.h>
#include <fcntl.h>
#include <errno.h>
}
#include "sasalloc.h"
#include "sassim.h"
#include "sasio.h"
#include "saslock.h"
#include "sassimpleheap.h"
#include "sassimplespace.h"
#include "sassimplestack.h"
#include "sascompoundheap.h"
#include "sasatom.h"
#include "sasindex.h"
#include "sasindexenum.h"
#include "sasindexkey.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sphcontext.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlfentry.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphcompoundpcqheap.h"
#include "sphlogportal.h"
#include "sphtimer.h"
#include "sphthread.h"
#include "sasmsync.h"

typedef unsigned char u8;
typedef uint64_t u64;

// Deterministic fill pattern for a piece of memory.
static inline u8 pat(u64 tag, u64 i) { u64 x = tag * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull; return (u8)((x >> 56) ^ (x >> 23)); }
static inline void fill(void *p, u64 n, u64 tag) { u8 *q = (u8 *)p; for (u64 i = 0; i < n; i++) q[i] = pat(tag, i); }
// -1 if intact, else first differing offset
static inline long check_fill(const void *p, u64 n, u64 tag) { const u8 *q = (const u8 *)p; for (u64 i = 0; i < n; i++) if (q[i] != pat(tag, i)) return (long)i; return -1; }

struct Ival { u64 a, n; };
// set of disjoint intervals with overlap detection
struct Ivals {
  std::map<u64, u64> m;            // start -> size
  // returns true and the colliding interval if [a,a+n) meets a member
  bool hits(u64 a, u64 n, Ival *w = nullptr) const {
    auto it = m.upper_bound(a + n - 1);
    if (it == m.begin()) return false;
    --it;
    if (it->first + it->second > a) { if (w) *w = {it->first, it->second}; return true; }
    return false;
  }
  void add(u64 a, u64 n) { m[a] = n; }
  void del(u64 a) { m.erase(a); }
};

struct RegionLists {
  enum { MAX = 1 << 17 };
  std::vector<Ival> free_, uncommitted, used, regionFree, segs;
  typedef void (*L)(void **, unsigned long *, int *);
  static void get(L f, std::vector<Ival> &v) {
    static thread_local void **a = (void **)malloc(MAX * 8); static thread_local unsigned long *s = (unsigned long *)malloc(MAX * 8); int n = 0;
    f(a, s, &n); v.clear(); for (int i = 0; i < n; i++) v.push_back({(u64)a[i], s[i]});
    std::sort(v.begin(), v.end(), [](const Ival &x, const Ival &y) { return x.a < y.a; });
  }
  void load() {
    get(SASListFreeMem, free_); get(SASListUncommittedMem, uncommitted); get(SASListInUseMem, used);
    get(SASListFreeRegion, regionFree); get(SASListAllocatedRegion, segs);
  }
  static u64 sum(const std::vector<Ival> &v) { u64 t = 0; for (auto &i : v) t += i.n; return t; }
  u64 avail() const { return sum(free_) + sum(uncommitted); }
};

// is [a,a+n) covered by the sorted, disjoint ranges v?
static inline bool covered(const std::vector<Ival> &v, u64 a, u64 n) { // v sorted, disjoint
  u64 p = a, e = a + n;
  for (auto &x : v) { if (x.a <= p && p < x.a + x.n) { p = x.a + x.n; if (p >= e) return true; } }
  return false;
}

// The region's bookkeeping must describe a partition: free, uncommitted and in-use ranges are
// disjoint, aligned, and together cover exactly the allocated segments.
static inline void check_region(pbt::Case &c, RegionLists &r) {
  r.load();
  std::vector<Ival> all;
  for (auto *v : {&r.free_, &r.uncommitted, &r.used}) all.insert(all.end(), v->begin(), v->end());
  std::sort(all.begin(), all.end(), [](const Ival &x, const Ival &y) { return x.a < y.a; });
  u64 lo = getMemLow(), hi = getMemHigh();
  for (size_t i = 0; i < all.size(); i++) {
    CHECK(all[i].a >= lo && all[i].a + all[i].n <= hi, "region-range", "listed range %lx+%lx outside the region", all[i].a, all[i].n);
    CHECK((all[i].n & (all[i].n - 1)) == 0 && ((all[i].a - lo) & (all[i].n - 1)) == 0, "region-align", "listed range %lx+%lx is not a naturally aligned power of two", all[i].a, all[i].n);
    if (i) CHECK(all[i - 1].a + all[i - 1].n <= all[i].a, "region-overlap", "free/uncommitted/in-use lists overlap: %lx+%lx and %lx+%lx", all[i - 1].a, all[i - 1].n, all[i].a, all[i].n);
  }
  u64 tot = RegionLists::sum(all), seg = RegionLists::sum(r.segs);
  CHECK(tot == seg, "region-cover", "free+uncommitted+in-use = %lx but allocated segments = %lx", tot, seg);
  // the region list and the segments partition the region
  u64 regf = RegionLists::sum(r.regionFree);
  CHECK(regf + seg == hi - lo, "region-total", "unallocated region %lx + segments %lx != region %lx", regf, seg, hi - lo);
  std::vector<Ival> rs = r.regionFree; rs.insert(rs.end(), r.segs.begin(), r.segs.end());
  std::sort(rs.begin(), rs.end(), [](const Ival &x, const Ival &y) { return x.a < y.a; });
  for (size_t i = 1; i < rs.size(); i++)
    CHECK(rs[i - 1].a + rs[i - 1].n <= rs[i].a, "region-seg-overlap", "segment/free region ranges overlap: %lx+%lx and %lx+%lx", rs[i - 1].a, rs[i - 1].n, rs[i].a, rs[i].n);
  for (auto &x : all) CHECK(covered(r.segs, x.a, x.n), "region-outside-segment", "listed range %lx+%lx is not inside allocated segments", x.a, x.n);
}
// In builds that wrap the two lock calls: what each thread holds.  A public operation leaves no
// lock behind and gives back only what it took.  (NO_LOCK_WATCH: the test itself is about locks.)
extern "C" void __real_SASLock(vm_address_t, sas_userlock_request_t) __attribute__((weak));
extern "C" void __real_SASUnlock(vm_address_t) __attribute__((weak));
namespace lockwatch {
struct Held { u64 a; long n; };
static thread_local Held held[2048]; static thread_local int nheld; static thread_local u64 stray; static thread_local bool off;
static void take(u64 a, int d) {
  if (off) return;
  for (int i = 0; i < nheld; i++) if (held[i].a == a) { held[i].n += d; if (!held[i].n) held[i] = held[--nheld]; return; }
  if (d < 0) stray = a; else if (nheld < 2048) held[nheld++] = {a, 1}; else off = true;
}
static inline void check(pbt::Case &c) {
  if (off) return;
  CHECK(!nheld, "lock-left", "a call returned with %lx still locked", held[0].a);
  CHECK(!stray, "unlock-unheld", "a call unlocked %lx, which it had not locked", stray);
}
#ifndef NO_LOCK_WATCH
static struct Hook { Hook() { pbt::at_end = check; } } hook;
#endif
}
extern "C" void __wrap_SASLock(vm_address_t a, sas_userlock_request_t t) { if (a) lockwatch::take((u64)a, 1); __real_SASLock(a, t); }
extern "C" void __wrap_SASUnlock(vm_address_t a) { if (a) lockwatch::take((u64)a, -1); __real_SASUnlock(a); }
static inline void sas_join(pbt::Case &c) { int rc = SASJoinRegion(); CHECK(rc == 0, "join", "SASJoinRegion = %d", rc); }
#endif
