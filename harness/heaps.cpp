// C01 simple heap, C02 simple stack / simple space
#include "sas.h"
#include "sasallocpriv.h"
extern "C" {
#include "freenode.h"
}
using namespace pbt;

static const bool findable(u64 n) { // block sizes the near lookup supports
  return n >= 512 && (n & (n - 1)) == 0;
}

// model of a heap: disjoint live pieces in [lo,hi), 16-byte granules
struct HeapModel {
  u64 lo, hi; Ivals iv; u64 live = 0;
  u64 cap() const { return hi - lo; }
  u64 freeb() const { return cap() - live; }
  u64 maxgap() const { u64 p = lo, g = 0; for (auto &x : iv.m) { g = std::max(g, x.first - p); p = x.first + x.second; } return std::max(g, hi - p); }
};
static u64 r16(u64 n) { return (n + 15) & ~15ull; }
struct Piece { u64 a, n, tag; };

static u64 gen_size(Case &c, u64 cap) {
  switch (c.below(6)) {
    case 0: return 1 + c.below(64);
    case 1: return 16 * (1 + c.below(16));
    case 2: return 1 + c.below(cap / 4 + 1);
    case 3: return 1 + c.below(cap / 16 + 1);
    case 4: return 1 + c.below(600);
    default: return 1 + c.below(cap + 40);
  }
}

static void simpleheap(Case &c, bool inner) {
  sas_join(c);
  static const u64 sizes[] = {4096, 4096, 16384, 65536, 8192, 32768, 262144, 1048576};
  u64 size; SASSimpleHeap_t h; void *outer = nullptr; u64 outern = 0;
  void *neighbour = nullptr;
  if (!inner) {
    size = sizes[c.below(8)];
    h = SASSimpleHeapCreate(size);
    CHECK(h, "create", "SASSimpleHeapCreate(%lx) = NULL", size);
    neighbour = SASBlockAlloc(size);             // the memory after the heap belongs to somebody else
    CHECK(neighbour, "create", "no neighbour block");
    fill(neighbour, size, 77);
  } else {                                        // heap formatted into part of a caller's block
    outern = 1ull << (13 + c.below(6)); outer = SASBlockAlloc(outern); CHECK(outer, "create", "block");
    u64 lg = 9 + c.below(4); size = 1ull << lg; u64 k = c.below(outern / size);
    fill(outer, outern, 5);
    h = SASSimpleHeapInit((char *)outer + k * size, SAS_RUNTIME_SIMPLEHEAP, size);
    CHECK(h == (char *)outer + k * size, "init", "SASSimpleHeapInit returned %p", h);
  }
  u64 hb = (u64)h;
  HeapModel m{hb + 128, hb + size, {}, 0};
  c.log("heap size %lx", size);
  CHECK(SASSimpleHeapFreeSpace(h) == m.cap(), "free-space", "fresh heap reports %lx free, expected %lx", SASSimpleHeapFreeSpace(h), m.cap());
  std::vector<Piece> live; u64 tag = 100; int fw = (int)c.range(0, 4); u64 refused = 0, frees = 0;
  u64 nops = c.range(1, c.thorough ? 400 : 150);
  bool wantNear = findable(size) && c.chance(1, 2);
  auto freespace = [&] {
    u64 f = c.chance(1, 2) ? SASSimpleHeapFreeSpace(h) : SASSimpleHeapFreeSpaceNoLock(h);
    CHECK(f == m.freeb(), "free-space", "heap reports %lx free, history gives %lx", f, m.freeb());
    int e = c.chance(1, 2) ? SASSimpleHeapEmpty(h) : SASSimpleHeapEmptyNoLock(h);
    CHECK((e != 0) == (m.live == 0), "empty", "Empty = %d with %lx bytes live", e, m.live);
  };
  auto dealloc = [&](size_t i) {
    Piece p = live[i]; live[i] = live.back(); live.pop_back();
    long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "contents", "piece at +%lx changed at offset %ld while allocated", p.a - hb, d);
    int how = (int)c.below(wantNear ? 5 : 3), rc = 0; if (!wantNear && how == 2) how = 4; c.log("free%d +%lx %lu", how, p.a - hb, p.n);
    if (how == 4) SASSOMHeapDealloc((SASBlockHeader *)h, (void *)p.a, (long)r16(p.n));
    else if (how == 0) rc = SASSimpleHeapFree(h, (void *)p.a, p.n);
    else if (how == 1) rc = SASSimpleHeapFreeNoLock(h, (void *)p.a, p.n);
    else if (how == 2) SASSimpleHeapNearDealloc((void *)p.a, p.n);
    else SASSimpleHeapNearDeallocNoLock((void *)p.a, p.n);
    CHECK(rc == 0, "free", "free of a live piece returned %d", rc);
    m.iv.del(p.a); m.live -= r16(p.n); frees++;
  };
  for (u64 op = 0; op < nops; op++) {
    if (!live.empty() && (int)c.below(8) < fw) dealloc(c.below(live.size()));
    else if (c.rarely(1, 25)) {                   // refusals
      u64 before = m.freeb(); int k = (int)c.below(5);
      void *probe = nullptr; int rc = -1; u64 n = 1 + c.below(64); refused++;
      if (k == 0) { probe = SASSimpleHeapAlloc(h, size + n); c.log("alloc too big"); }
      else if (k == 1) { rc = SASSimpleHeapFree(h, (void *)(hb + c.below(8) * 16), n); c.log("free header"); }
      else if (k == 2 && !inner) { u64 at = c.below(size / 16) * 16; n = r16(n); if (at + n > size) at = size - n; rc = SASSimpleHeapFree(h, (char *)neighbour + at, n); c.log("free of a piece outside the heap");
        if ((u64)neighbour + size <= hb || (u64)neighbour >= hb + size) {} }
      else if (k == 3 && !live.empty()) { rc = SASSimpleHeapFree(h, (void *)live[0].a, size + 1); c.log("free with impossible size"); }
      else if (k == 4) { static char notheap[1024] __attribute__((aligned(512))); rc = SASSimpleHeapFree(notheap, notheap + 256, n); probe = SASSimpleHeapAlloc(notheap, n); }
      CHECK(!probe, "refuse", "an impossible allocation (kind %d) returned %p", k, probe);
      CHECK(rc != 0, "refuse", "an invalid free (kind %d) returned 0", k);
      u64 f = SASSimpleHeapFreeSpace(h); CHECK(f == before, "refuse-effect", "a refused request (kind %d) changed the free space from %lx to %lx", k, before, f);
      for (auto &p : live) { long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "refuse-effect", "a refused request (kind %d) changed a live piece", k); }
      if (neighbour) { long d = check_fill(neighbour, size, 77); CHECK(d < 0, "refuse-effect", "a refused request (kind %d) wrote outside the heap at %ld", k, d); }
    } else {
      u64 n = gen_size(c, m.cap()), rn = r16(n);
      int how = (int)c.below(wantNear ? 5 : 3); if (!wantNear && how == 2) how = 4; if (how == 4) n = rn;
      void *near = live.empty() ? (void *)(hb + 128 + c.below(m.cap())) : (void *)(live[c.below(live.size())].a);
      void *p = how == 0 ? SASSimpleHeapAlloc(h, n) : how == 1 ? SASSimpleHeapAllocNoLock(h, n)
              : how == 4 ? SASSOMHeapAlloc((SASBlockHeader *)h, (long)n) : how == 2 ? SASSimpleHeapNearAlloc(near, n) : SASSimpleHeapNearAllocNoLock(near, n);
      c.log("alloc%d %lu -> %lx", how, n, p ? (u64)p - hb : 0);
      u64 g = m.maxgap();
      if (!p) { CHECK(g < rn, "alloc-null", "alloc of %lu returned NULL although a free piece of %lu exists", n, g); c.count("full"); }
      else {
        u64 a = (u64)p; Ival w;
        CHECK(a >= m.lo && a + n <= m.hi, "alloc-range", "piece +%lx of %lu is outside the heap (%lx)", a - hb, n, size);
        CHECK((a & 15) == 0, "alloc-align", "piece %lx is not 16-byte aligned", a);
        CHECK(!m.iv.hits(a, n, &w), "alloc-overlap", "piece +%lx of %lu overlaps live piece +%lx", a - hb, n, w.a - hb);
        fill(p, n, ++tag); live.push_back({a, n, tag}); m.iv.add(a, rn); m.live += rn;
      }
    }
    if (c.rarely(1, 10)) freespace();
  }
  freespace();
  for (auto &p : live) { long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "contents", "piece at +%lx changed at offset %ld", p.a - hb, d); }
  if (live.size() > 3 && frees > 1) c.nontrivial();
  while (!live.empty()) dealloc(c.below(live.size()));
  freespace();
  void *all = SASSimpleHeapAlloc(h, m.cap() - 16);
  CHECK(all == (void *)m.lo, "coalesce", "after freeing everything the heap does not give its whole space as one piece (%p)", all);
  CHECK(SASSimpleHeapFreeSpace(h) == 16, "coalesce", "free space %lx after allocating all but 16 bytes", SASSimpleHeapFreeSpace(h));
  CHECK(SASSimpleHeapFree(h, all, m.cap() - 16) == 0, "coalesce", "free failed");
  freespace();
  if (!inner) {
    long d = check_fill(neighbour, size, 77); CHECK(d < 0, "outside", "the heap wrote outside its block at %ld", d);
    SASBlockDealloc(neighbour, size);
    RegionLists r; r.load(); u64 a0 = r.avail();
    int rc = c.chance(1, 2) ? SASSimpleHeapDestroy(h) : SASSimpleHeapDestroyNoLock(h); CHECK(rc == 0, "destroy", "destroy returned %d", rc);
    check_region(c, r); CHECK(r.avail() == a0 + size, "destroy", "destroy gave back %lx instead of %lx", r.avail() - a0, size);
    CHECK(SASSimpleHeapAlloc(h, 16) == nullptr, "destroy", "a destroyed heap still allocates");
  } else {
    for (u64 i = 0; i < outern; i++) { u64 x = (u64)outer + i; if (x >= hb && x < hb + size) continue;
      CHECK(((u8 *)outer)[i] == pat(5, i), "outside", "the formatted heap wrote outside itself at %ld", (long)(x - hb)); }
  }
}
PBT_TEST(C01, created, 2) { simpleheap(c, false); }
PBT_TEST(C01, formatted, 1) { simpleheap(c, true); }

// ------------------------------------------------------------------ stack
static void stack_(Case &c); static void space_(Case &c);
PBT_TEST(C02, stack, 2) { stack_(c); }
PBT_TEST(C02, space, 1) { space_(c); }
PBT_TEST(A04, heap_calls, 1) { switch (c.below(4)) { case 0: simpleheap(c, false); break; case 1: simpleheap(c, true); break; case 2: stack_(c); break; default: space_(c); } } // every call gives back its locks
static void stack_(Case &c) {
  sas_join(c);
  u64 size = 4096ull << c.below(6);
  bool inner = c.rarely(1, 4); void *outer = nullptr; SASSimpleStack_t s; u64 outern = 0;
  if (inner) { outern = size * 4; outer = SASBlockAlloc(outern); CHECK(outer, "create", "block"); u64 k = c.below(4); fill(outer, outern, 9);
    s = SASSimpleStackInit((char *)outer + k * size, size); CHECK(s == (char *)outer + k * size, "create", "init"); }
  else { s = SASSimpleStackCreate(size); CHECK(s, "create", "SASSimpleStackCreate(%lx) = NULL", size); }
  void *nb = inner ? nullptr : SASBlockAlloc(size); if (nb) fill(nb, size, 7);
  u64 sb = (u64)s, lo = sb + 4096, hi = sb + size, top = lo;
  struct E { u64 a, n, tag, end; }; std::vector<E> st; u64 tag = 1, pops = 0, refused = 0;
  bool nearok = findable(size) && c.chance(1, 2);
  u64 nops = c.range(1, 120);
  for (u64 op = 0; op < nops; op++) {
    u64 k = c.below(10);
    if (k < 5 || st.empty()) {
      u64 n = c.below(3) == 0 ? 1 + c.below(40) : c.below(2) ? 1 + c.below(700) : 1 + c.below(size);
      if (c.rarely(1, 12)) n = 0 - (1 + c.below(c.chance(1, 2) ? 64 : 0x100000));       // absurdly large
      int how = (int)c.below(nearok ? 4 : 2);
      void *near = (void *)(sb + c.below(size));
      void *p = how == 0 ? SASSimpleStackAlloc(s, n) : how == 1 ? SASSimpleStackAllocNoLock(s, n) : how == 2 ? SASSimpleStackNearAlloc(near, n) : SASSimpleStackNearAllocNoLock(near, n);
      c.log("push%d %lu -> %lx", how, n, p ? (u64)p - sb : 0);
      bool fits = n <= hi - top && r16(n) <= hi - top;
      CHECK((p != nullptr) == fits, "alloc-null", "push of %lu with %lu left returned %p", n, hi - top, p);
      if (p) { CHECK((u64)p == top, "order", "push at +%lx, expected the old top +%lx", (u64)p - sb, top - sb);
        CHECK(((u64)p & 15) == 0, "align", "piece %p not aligned", p);
        fill(p, n, ++tag); top += r16(n); st.push_back({(u64)p, n, tag, top}); }
      else refused++;
    } else if (k < 8) {
      size_t keepn = c.chance(2, 3) ? st.size() - 1 : c.below(st.size());
      for (auto &e : st) { long d = check_fill((void *)e.a, e.n, e.tag); CHECK(d < 0, "contents", "stack piece +%lx changed", e.a - sb); }
      u64 to = st[keepn].a; int rc = c.chance(1, 2) ? SASSimpleStackDealloc(s, (void *)to) : SASSimpleStackDeallocNoLock(s, (void *)to);
      c.log("pop to +%lx", to - sb);
      CHECK(rc == 0, "pop", "dealloc returned %d", rc); st.resize(keepn); top = to; pops++;
    } else if (k == 8) {
      static const char *nm[] = {"below", "above", "misaligned"}; int w = (int)c.below(3); u64 at = w == 0 ? sb + c.below(4096) : w == 1 ? hi + 1 + c.below(4096) : lo + (c.below(std::max<u64>(16, top - lo)) | 1);
      if (w == 2 && at > hi) continue;
      bool lk = c.chance(1, 2); int rc = lk ? SASSimpleStackDealloc(s, (void *)at) : SASSimpleStackDeallocNoLock(s, (void *)at);
      c.log("pop to bad address +%lx (%s)", at - sb, nm[w]); refused++;
      CHECK(rc != 0, "refuse", "dealloc to a bad address (%s) returned 0", nm[w]);
    }
    u64 f = c.chance(1, 2) ? SASSimpleStackFreeSpace(s) : SASSimpleStackFreeSpaceNoLock(s);
    CHECK(f == hi - top, "free-space", "stack reports %lu free, history gives %lu", f, hi - top);
  }
  for (auto &e : st) { long d = check_fill((void *)e.a, e.n, e.tag); CHECK(d < 0, "contents", "stack piece +%lx changed", e.a - sb); }
  if (pops > 1 && st.size() > 1) c.nontrivial(); c.count("refused", refused);
  if (nb) { long d = check_fill(nb, size, 7); CHECK(d < 0, "outside", "stack wrote outside its block"); }
  if (outer) { for (u64 i = 0; i < outern; i++) { u64 x = (u64)outer + i; if (x >= sb && x < hi) continue; CHECK(((u8 *)outer)[i] == pat(9, i), "outside", "stack wrote outside its block"); } }
  else { RegionLists r; r.load(); u64 a0 = r.avail(); int rc = c.chance(1, 2) ? SASSimpleStackDestroy(s) : SASSimpleStackDestroyNoLock(s); CHECK(rc == 0, "destroy", "destroy returned %d", rc);
    check_region(c, r); CHECK(r.avail() == a0 + size, "destroy", "destroy gave back %lx instead of %lx", r.avail() - a0, size); }
}

static void space_(Case &c) {
  sas_join(c);
  RegionLists r; r.load(); u64 a0 = r.avail();
  struct S { SASSimpleSpace_t s; u64 n, a, tag, blk; }; std::vector<S> v; u64 tag = 10; Ivals iv; u64 nd = 0;
  u64 nops = c.range(2, 40);
  for (u64 op = 0; op < nops; op++) {
    if (v.empty() || c.chance(3, 5)) {
      u64 n = c.below(3) == 0 ? 1 + c.below(9000) : c.below(2) ? (4096ull << c.below(6)) - 4096 + c.below(3) - (c.below(2)) : 1 + c.below(300000);
      if (n == 0 || n > (1u << 20)) n = 4096;
      SASSimpleSpace_t s; u64 blk = 8192; while (blk < n + 4096) blk *= 2;
      if (c.rarely(1, 12)) { u64 big = SegmentSize - 4096 + 1 + c.below(1 << 20); if (c.chance(1, 2)) big = c.chance(1, 2) ? ~0ull - c.below(8192) : 1ull << (29 + c.below(35)); SASSimpleSpace_t x = SASSimpleSpaceCreate(big); c.log("space %lx -> %p", big, x); CHECK(!x, "refuse", "a space of %lx bytes was created", big); }
      if (c.rarely(1, 3)) { blk <<= c.below(3); void *b = SASBlockAlloc(blk); CHECK(b, "create", "block"); memset(b, 0xa5, blk); s = SASSimpleSpaceInit(b, blk, n); CHECK(s == b, "init", "SASSimpleSpaceInit of %p = %p", b, s); }
      else s = SASSimpleSpaceCreate(n);
      CHECK(s, "create", "SASSimpleSpaceCreate(%lu) = NULL", n);
      u64 a = (u64)SASSimpleSpaceToAddr(s); c.log("space %lu -> +%lx", n, a - getMemLow());
      CHECK(a, "addr", "no address"); CHECK((a & 15) == 0, "align", "space at %lx not aligned", a);
      Ival w; CHECK(!iv.hits(a, n, &w), "overlap", "space %lx+%lx overlaps space %lx+%lx", a, n, w.a, w.n);
      CHECK(SASSimpleSpaceFromAddr((void *)a) == s, "from-addr", "FromAddr does not return the space");
      CHECK(a >= (u64)s + 64 && a + n <= (u64)s + blk, "range", "space of %lu at +%lx in a block of %lx", n, a - (u64)s, blk);
      RegionLists q; q.load(); CHECK(covered(q.used, (u64)s, a + n - (u64)s), "range", "space is not inside allocated storage");
      CHECK(!covered(q.free_, a, 1), "range", "space starts in free storage");
      for (auto &x : q.free_) CHECK(x.a >= a + n || x.a + x.n <= a, "range", "space reaches into free storage");
      for (auto &x : q.uncommitted) CHECK(x.a >= a + n || x.a + x.n <= a, "range", "space reaches into unallocated storage");
      iv.add(a, n); fill((void *)a, n, ++tag); v.push_back({s, n, a, tag, blk});
    } else {
      size_t i = c.below(v.size()); S x = v[i]; v[i] = v.back(); v.pop_back();
      long d = check_fill((void *)x.a, x.n, x.tag); CHECK(d < 0, "contents", "space changed at %ld", d);
      int rc = c.chance(1, 2) ? SASSimpleSpaceDestroy(x.s) : SASSimpleSpaceDestroyNoLock(x.s); CHECK(rc == 0, "destroy", "destroy = %d", rc); iv.del(x.a); nd++;
      CHECK(SASSimpleSpaceToAddr(x.s) == nullptr, "destroy", "a destroyed space still has an address");
    }
    for (auto &x : v) { u64 f = SASSimpleSpaceFreeSpace(x.s);
      CHECK(f == x.blk - 4096 - x.n, "free-space", "space of %lu in block %lx reports %lu free", x.n, x.blk, f); }
  }
  for (auto &x : v) { long d = check_fill((void *)x.a, x.n, x.tag); CHECK(d < 0, "contents", "space changed at %ld", d); }
  if (nd && v.size() > 1) c.nontrivial();
  for (auto &x : v) CHECK(SASSimpleSpaceDestroy(x.s) == 0, "destroy", "destroy failed");
  check_region(c, r); CHECK(r.avail() == r.segs.size() * SegmentSize - block__Size1M, "leak", "destroying all spaces left %lx missing", r.segs.size() * SegmentSize - block__Size1M - r.avail()); (void)a0;
}

// the list of free pieces itself, as a program can use it for memory of its own
PBT_TEST(C01, pieces, 0.5) {
  u64 n = 16 * c.range(2, c.thorough ? 4000 : 600), gaps = c.below(3); char *buf = (char *)aligned_alloc(4096, 65536 * 2); memset(buf, 0x5a, 131072); u64 lo = (u64)buf;
  Ivals fr; auto freed = [&](u64 a, u64 k) { auto it = fr.m.lower_bound(a); if (it != fr.m.end() && it->first == a + k) { k += it->second; it = fr.m.erase(it); } if (it != fr.m.begin()) { auto q = std::prev(it); if (q->first + q->second == a) { q->second += k; return; } } fr.m[a] = k; };
  struct P { u64 a, n, tag; }; std::vector<P> live; u64 tag = 1; FreeNode *head; u64 at = lo;
  head = (FreeNode *)at; freeNode_init(head, n); fr.m[at] = n; at += n; c.log("%lu bytes", n);
  auto check = [&] { u64 t = 0, mx = 0; for (auto &x : fr.m) t += x.second, mx = std::max(mx, x.second); if (fr.m.empty()) { CHECK(!head, "pieces-head", "everything is handed out but the list is not empty"); return; }
    CHECK(head, "pieces-head", "the list is empty with %lu bytes free", t); u64 a = freeNode_freeSpaceTotal(head), b = freeNode_freeFragmentsTotal(head), m = freeNode_maxFragment(head);
    CHECK(a == t && b == fr.m.size() && m == mx, "pieces-report", "the list reports %lu bytes in %lu pieces, the largest %lu; the history gives %lu in %zu, the largest %lu", a, b, m, t, fr.m.size(), mx); };
  check(); u64 fs = 0, got = 0;
  for (u64 i = 0, e = c.range(1, c.thorough ? 600 : 200); i < e; i++) {
    u64 k = c.below(9);
    if (k == 8 && gaps && at + 2000 < lo + 131072) { u64 g = c.below(2) * 16, s = 16 * (1 + c.below(60)); at += g; gaps--; freeNode_deallocSpace((FreeNode *)at, &head, s); freed(at, s); c.log("give %lu more bytes, %lu after the end", s, g); at += s; n += s; }
    else if (k >= 4 && !live.empty()) { size_t j = c.below(live.size()); P p = live[j]; live[j] = live.back(); live.pop_back(); long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "pieces-contents", "a piece at +%lx changed at %ld", p.a - lo, d);
      freeNode_deallocSpace((FreeNode *)p.a, &head, p.n); freed(p.a, r16(p.n)); fs++; c.log("free +%lx %lu", p.a - lo, p.n); }
    else { u64 mx = 0; for (auto &x : fr.m) mx = std::max(mx, x.second); u64 w = c.chance(1, 2) ? 1 + c.below(80) : c.chance(1, 2) ? 1 + c.below(mx + 20) : c.chance(1, 2) && mx ? mx - c.below(16) : 1 + c.below(n);
      FreeNode *p = freeNode_allocSpace(head, &head, w); c.log("alloc %lu -> +%lx", w, p ? (u64)p - lo : 0); CHECK((p != nullptr) == (r16(w) <= mx), "pieces-alloc", "a request of %lu = %p with %lu bytes in the largest piece", w, p, mx);
      if (p) { auto it = fr.m.upper_bound((u64)p); bool in = it != fr.m.begin() && (--it, (u64)p + r16(w) <= it->first + it->second); CHECK(in, "pieces-overlap", "a request of %lu was given +%lx, which is not free", w, (u64)p - lo);
        u64 a0 = it->first, n0 = it->second; fr.m.erase(it); if (a0 < (u64)p) fr.m[a0] = (u64)p - a0; if ((u64)p + r16(w) < a0 + n0) fr.m[(u64)p + r16(w)] = a0 + n0 - (u64)p - r16(w); live.push_back({(u64)p, w, ++tag}); fill(p, w, tag); got++; } }
    check();
  }
  while (!live.empty()) { P p = live.back(); live.pop_back(); CHECK(check_fill((void *)p.a, p.n, p.tag) < 0, "pieces-contents", "a piece changed"); freeNode_deallocSpace((FreeNode *)p.a, &head, p.n); freed(p.a, r16(p.n)); check(); }
  for (char *q = (char *)at; q < buf + 131072; q++) CHECK(*q == 0x5a, "pieces-outside", "the memory after the last piece changed");
  if (got > 4 && fs > 2) c.nontrivial(); free(buf);
}
