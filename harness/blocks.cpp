// A01 block allocation, A02 conservation
#include "sas.h"
using namespace pbt;

struct Blk { u64 a, n, tag, som = 0; };                  // som: the size it was requested with through SASSOMAlloc
static const u64 SEG = SegmentSize;

// contents: a pattern in the first and last 128 bytes and at a few inner places
static void mark(const Blk &b) {
  u64 k = 128;
  fill((void *)b.a, k, b.tag); fill((void *)(b.a + b.n - k), k, b.tag + 1);
  for (u64 i = 1; i < 8; i++) fill((void *)(b.a + b.n / 8 * i), 64, b.tag + 2 + i);
}
static void verify(Case &c, const Blk &b, const char *when) {
  long r = check_fill((void *)b.a, 128, b.tag);
  if (r >= 0) c.fail("contents", "block %lx+%lx changed at offset %ld %s", b.a, b.n, r, when);
  r = check_fill((void *)(b.a + b.n - 128), 128, b.tag + 1);
  if (r >= 0) c.fail("contents", "block %lx+%lx changed near its end %s", b.a, b.n, when);
  for (u64 i = 1; i < 8; i++) { r = check_fill((void *)(b.a + b.n / 8 * i), 64, b.tag + 2 + i);
    if (r >= 0) c.fail("contents", "block %lx+%lx changed at offset %lx %s", b.a, b.n, b.n / 8 * i + r, when); }
}

static void blocks(Case &c, bool conserve) {
  sas_join(c);
  bool compact = true, toggles = c.rarely(1, 5);                // how the blocks in use are tracked; either may be chosen at any time
  auto uselist = [&](bool cm) { if (cm) setSASCompactUseList(); else setSASLinearUseList(); compact = cm; c.log("%s use list", cm ? "compact" : "linear"); int f = getSASUseListFlag(); CHECK((f != 0) == cm, "use-list-flag", "the use list flag is %d after choosing %s", f, cm ? "compact" : "linear"); };
  { int f = getSASUseListFlag(); CHECK(f, "use-list-flag", "a new region has the use list flag %d", f); }
  if (c.rarely(1, 6)) uselist(false);
  RegionLists r0, r; check_region(c, r0);
  CHECK(r0.segs.size() == 1, "fresh", "fresh region has %zu segments", r0.segs.size());
  CHECK(r0.avail() == SEG - block__Size1M, "fresh", "fresh region has %lx available", r0.avail());
  u64 lo = getMemLow(), hi = getMemHigh();
  std::vector<Blk> live; Ivals iv; u64 tag = 1;
  // size profile of this case
  int prof = (int)c.below(6);
  u64 maxops = prof == 4 ? (c.thorough ? 260 : 90) : (c.thorough ? 400 : 160);
  u64 nops = c.range(1, maxops);
  int freeW = (int)c.range(0, 3);
  u64 peak = 0;
  bool clear = c.rarely(1, 3);                            // some cases clear small blocks when they are freed
  auto dealloc = [&](size_t i) {
    Blk b = live[i]; verify(c, b, "before being freed");
    live[i] = live.back(); live.pop_back(); iv.del(b.a);
    sasClearOnDealloc = clear && b.n <= (1 << 20);
    if (b.som && !sasClearOnDealloc) { c.log("SASSOMDestroy %lx, %lx", b.a - lo, b.som); SASSOMDestroy((void *)b.a, (long)b.som); return; }
    c.log("dealloc %lx+%lx%s", b.a - lo, b.n, sasClearOnDealloc ? " clearing" : "");
    SASBlockDealloc((void *)b.a, b.n);
    if (sasClearOnDealloc) { for (u64 *q = (u64 *)b.a; q < (u64 *)(b.a + b.n); q++) CHECK(!*q, "clear", "freed block %lx+%lx was not cleared at offset %lx", b.a, b.n, (u64)q - b.a); 
      sasClearOnDealloc = 0; auto it = iv.m.upper_bound(b.a); if (it != iv.m.end()) for (auto &x : live) if (x.a == it->first) { verify(c, x, "by freeing the block below it"); break; } }
  };
  for (u64 op = 0; op < nops; op++) {
    if (toggles && c.rarely(1, 12)) { uselist(!compact); c.count("use-list-switched"); }
    bool fr = !live.empty() && (int)c.below(6) < freeW;
    if (fr) { size_t i = c.below(live.size()); dealloc(i); }
    else {
      u64 lg;
      switch (prof) {
        case 0: lg = 12 + c.below(5); break;
        case 1: lg = 12 + c.below(17); break;                 // 4K .. 256M
        case 2: lg = 20 + c.below(9); break;
        case 3: lg = c.below(4) ? 12 : 24 + c.below(5); break;
        case 4: lg = 26 + c.below(3); break;                  // many segments: beyond 4 GB
        default: lg = 12 + c.below(10); break;
      }
      u64 n = 1ull << lg;
      if (iv.m.size() && RegionLists::sum(r0.segs) == 0) break;
      u64 som = 0; void *p;
      if (n <= (1 << 24) && c.rarely(1, n > (1 << 20) ? 40 : 8)) {   // the rounding interface: sizes 4K, 16K, ... 16M
        som = c.rarely(1, 3) ? n : n / 2 + 1 + c.below(n / 2); u64 cls = 4096; while (cls < som) cls *= 4; n = cls;
        p = SASSOMAlloc((long)som, (long)som); c.log("SASSOMAlloc %lx", som); c.count("som");
        if (p) for (u64 *q = (u64 *)p; q < (u64 *)((u64)p + n) - 1; q++) CHECK(!*q, "som-zero", "SASSOMAlloc(%lx) = %p is not zero at offset %lx", som, p, (u64)q - (u64)p);
      } else p = SASBlockAlloc(n);
      c.log("alloc %lx -> %lx", n, p ? (u64)p - lo : 0);
      CHECK(p, "alloc-null", "SASBlockAlloc(%lx) = NULL with plenty of region left", n);
      u64 a = (u64)p; Ival w;
      CHECK(a >= lo && a + n <= hi, "alloc-range", "block %lx+%lx outside the region", a, n);
      CHECK(((a - lo) & (n - 1)) == 0 && (a & (n - 1)) == 0, "alloc-align", "block %lx of size %lx is not aligned to its size", a, n);
      CHECK(!iv.hits(a, n, &w), "alloc-overlap", "new block %lx+%lx overlaps live block %lx+%lx", a, n, w.a, w.n);
      CHECK(a >= lo + block__Size1M, "alloc-anchor", "new block %lx+%lx overlaps the anchor", a, n);
      if (a - lo > 0xffffffffull) c.count("beyond-4G");
      peak = std::max(peak, a + n - lo);
      Blk b{a, n, tag += 16, som}; mark(b); live.push_back(b); iv.add(a, n);
    }
    if (c.rarely(1, 12) || op + 1 == nops) {
      check_region(c, r);
      u64 lv = 0; for (auto &b : live) { lv += b.n;
        CHECK(covered(r.used, b.a, b.n), "live-not-used", "live block %lx+%lx is missing from the in-use list", b.a, b.n);
      }
      CHECK(RegionLists::sum(r.used) == lv + block__Size1M, "used-sum", "in-use list sums to %lx, live blocks to %lx + 1M anchor", RegionLists::sum(r.used), lv);
      if (conserve)
        CHECK(r.avail() == r.segs.size() * SEG - block__Size1M - lv, "avail", "available %lx, expected %lx", r.avail(), r.segs.size() * SEG - block__Size1M - lv);
    }
  }
  for (auto &b : live) verify(c, b, "at the end");
  if (live.size() > 4 && freeW) c.nontrivial();
  c.count("ops", nops); if (peak > (1ull << 32)) c.count("cases-beyond-4G");
  if (!conserve) return;
  // free everything in random order, sometimes in smaller power-of-two pieces
  u64 order = c.below(3);
  while (!live.empty()) {
    if (toggles && c.rarely(1, 12)) uselist(!compact);
    size_t i = order == 0 ? live.size() - 1 : order == 1 ? 0 : c.below(live.size());
    if (live[i].n >= 16384 && c.rarely(1, 10)) {              // give it back in halves/quarters, any order
      Blk b = live[i]; live[i] = live.back(); live.pop_back(); iv.del(b.a);
      int parts = c.rarely(1, 2) ? 4 : 2; u64 m = b.n / parts;
      int rot = (int)c.below(parts);
      c.log("dealloc %lx+%lx in %d parts", b.a - lo, b.n, parts);
      for (int k = 0; k < parts; k++) SASBlockDealloc((void *)(b.a + m * ((k + rot) % parts)), m);
      c.count("split-dealloc");
    } else dealloc(i);
  }
  check_region(c, r);
  u64 nseg = r.segs.size();
  CHECK(r.avail() == nseg * SEG - block__Size1M, "leak", "all freed, but %lx of %lx available", r.avail(), nseg * SEG - block__Size1M);
  CHECK(RegionLists::sum(r.used) == block__Size1M, "leak", "all freed, but in-use sums to %lx", RegionLists::sum(r.used));
  // everything available can be handed out again without another segment, also in the largest sizes
  std::map<u64, int> want;
  if (nseg < 40) {
    for (u64 s = 0; s < nseg; s++) {
      if (s > 0) want[SEG]++; else for (u64 z = block__Size1M; z < SEG; z <<= 1) want[z]++;
    }
    bool merged = true; // only meaningful when free and uncommitted do not split a buddy pair
    std::map<u64, int> have;
    { std::vector<Ival> v = r.free_; v.insert(v.end(), r.uncommitted.begin(), r.uncommitted.end());
      std::sort(v.begin(), v.end(), [](const Ival &x, const Ival &y) { return x.a < y.a; });
      for (auto &x : r.uncommitted) for (auto &y : r.free_) if (x.n == y.n && ((x.a - lo) ^ x.n) == (y.a - lo)) merged = false; }
    // inside each list no two free buddies may remain apart
    for (auto *v : {&r.free_, &r.uncommitted}) for (auto &x : *v) { if (x.n >= SEG) continue;
      for (auto &y : *v) CHECK(!(x.n == y.n && ((x.a - lo) ^ x.n) == (y.a - lo)), "not-coalesced", "free buddies %lx and %lx of size %lx were not merged", x.a, y.a, x.n); }
    if (merged) c.count("fully-merged");
    // hand everything out again, largest first
    std::vector<Ival> v = r.free_; v.insert(v.end(), r.uncommitted.begin(), r.uncommitted.end());
    for (size_t q = 0; q < v.size(); q++) while (v[q].n > SEG) { Ival h{v[q].a + v[q].n / 2, v[q].n / 2}; v[q].n /= 2; v.push_back(h); }
    std::vector<u64> sizes; for (auto &x : v) sizes.push_back(x.n);
    std::sort(sizes.rbegin(), sizes.rend());
    Ivals iv2;
    for (u64 z : sizes) { void *p = SASBlockAlloc(z); Ival w;
      CHECK(p, "realloc-null", "region does not satisfy %lx again", z);
      CHECK(!iv2.hits((u64)p, z, &w), "realloc-overlap", "block %p+%lx overlaps %lx+%lx", p, z, w.a, w.n);
      iv2.add((u64)p, z); }
    check_region(c, r);
    CHECK(r.segs.size() == nseg, "realloc-grew", "re-allocating what was free grew the region from %lu to %zu segments", nseg, r.segs.size());
    CHECK(r.avail() == 0, "realloc-left", "%lx bytes left over", r.avail());
  }
}
PBT_TEST(A01, blocks, 1) { blocks(c, false); }
PBT_TEST(A02, conserve, 1) { blocks(c, true); }
