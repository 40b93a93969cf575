// C03 compound heaps of simple heaps and of queues
#include "sas.h"
#include "sasallocpriv.h"
using namespace pbt;

struct Page { u64 a; bool pcq; u64 tag; void *piece; u64 pn; };
struct Comp {
  SASCompoundHeap_t h; u64 size, page, hdr; bool exp, inited; long load; void *outer = nullptr; u64 outern = 0;
  std::map<u64, Page> pages; std::set<u64> blocks;
  u64 used(u64 b) const { u64 n = hdr; auto it = pages.lower_bound(b); for (; it != pages.end() && it->first < b + size; ++it) n += page; return n; }
  int pct(u64 b) const { return (int)(used(b) * 100 / size); }
  bool full(u64 b) const { return used(b) + page > size; }
};
static u64 blockOf(Comp &k, u64 a) { for (u64 b : k.blocks) if (a > b && a < b + k.size) return b; return 0; }
static void check_page(Case &c, Page &p) {
  if (p.piece) { long r = check_fill(p.piece, p.pn, p.tag); CHECK(r < 0, "contents", "memory in page %lx changed at offset %ld", p.a, r); } }
static void audit(Case &c, std::vector<Comp> &hs) {
  for (auto &k : hs) {
    u64 f = c.chance(1, 2) ? SASCompoundHeapFreeSpace(k.h) : SASCompoundHeapFreeSpaceNoLock(k.h), e = k.blocks.size() * (k.size - k.hdr) - k.pages.size() * k.page;
    CHECK(f == e, "free-space", "heap %p reports %lx free, the history gives %lx (%zu blocks, %zu pages)", k.h, f, e, k.blocks.size(), k.pages.size());
    u64 s = SASCompoundHeapAllocSpace(k.h); CHECK(s == k.blocks.size() * k.size, "alloc-space", "heap %p reports %lx allocated, the history gives %lx", k.h, s, k.blocks.size() * k.size);
    CHECK(SASCompoundHeapAllocSize(k.h) == k.page, "alloc-size", "page size %lx", SASCompoundHeapAllocSize(k.h));
  }
}
// a new page (or none): bring the model in step and judge it.  near: the address it was asked near to, or 0
static void got(Case &c, std::vector<Comp> &hs, size_t i, void *p, bool pcq, u64 near, u64 &tag, const char *how) {
  Comp &k = hs[i]; u64 s = SASCompoundHeapAllocSpace(k.h); u64 a = (u64)p;
  u64 grown = s / k.size - k.blocks.size(); CHECK(grown <= 1, "grow", "one allocation added %lu blocks", grown);
  u64 inb = a ? blockOf(k, a) : 0;
  if (grown) { CHECK(k.exp, "grow", "a fixed heap grew");
    for (u64 b : k.blocks) CHECK(k.pct(b) >= k.load, "grow", "the heap grew although block %lx is only %d%% used (load factor %ld)", b, k.pct(b), k.load);
    if (a) { u64 nb = a & ~(k.size - 1); CHECK(!k.blocks.count(nb), "grow", "the page is not in the new block"); k.blocks.insert(nb); inb = nb; RegionLists r; r.load(); CHECK(covered(r.used, nb, k.size), "region", "the expansion %lx+%lx is not allocated from the region", nb, k.size);
      for (auto &x : hs) if (x.h != k.h) for (u64 b : x.blocks) CHECK(b + x.size <= nb || nb + k.size <= b, "overlap", "expansion %lx overlaps another compound heap's %lx", nb, b); } }
  if (!a) { bool room = false; u64 cap = k.size > 4096 ? (k.size - 4096) / 8 - 2 : 254; if (cap < 254) cap = 254;
    if (near) { u64 b = blockOf(k, near); if (!b) b = k.blocks.count(near) ? near : *k.blocks.begin(); room = !k.full(b); }
    if (k.exp && k.blocks.size() < cap) room = true;
    if (!k.exp) { room = !k.full(*k.blocks.begin()); }
    else for (u64 b : k.blocks) if (k.pct(b) < k.load && !k.full(b)) room = true;
    CHECK(!room, "alloc-null", "%s gives NULL with %zu blocks, %zu pages", how, k.blocks.size(), k.pages.size()); c.count("null"); return; }
  CHECK(inb, "outside", "page %lx is in no block of its heap", a);
  CHECK(a >= inb + k.hdr && a + k.page <= inb + k.size && (a & (k.page - 1)) == 0, "outside", "page %lx is not an aligned page of block %lx", a, inb);
  CHECK(!k.pages.count(a), "overlap", "page %lx is live already", a);
  CHECK((u64)SASFindHeader(p) == a, "find", "the new page does not find itself");
  Page pg{a, pcq, tag += 10, nullptr, 0};
  if (pcq) { CHECK(SOMSASCheckBlockSigAndType((SASBlockHeader *)p, SAS_RUNTIME_PCQUEUE), "kind", "page %lx is no queue", a); CHECK(SPHSinglePCQueueEmpty(p) == 1 || k.page < 640, "kind", "the new queue is not empty");
    }
  else { CHECK(SOMSASCheckBlockSigAndType((SASBlockHeader *)p, SAS_RUNTIME_SIMPLEHEAP), "kind", "page %lx is no simple heap", a);
    u64 f = SASSimpleHeapFreeSpace(p); CHECK(f == k.page - 128, "kind", "the new simple heap has %lx bytes free instead of %lx", f, k.page - 128);
    if (c.chance(3, 4)) { pg.pn = 1 + c.below(k.page - 128); pg.piece = SASSimpleHeapAlloc(p, pg.pn); CHECK(pg.piece, "kind", "%lx bytes refused by a new simple heap", pg.pn); fill(pg.piece, pg.pn, pg.tag); } }
  k.pages[a] = pg;
}
static u64 some_address(Case &c, Comp &k, bool pages) { // an address inside one of the heap's blocks
  if (pages && !k.pages.empty() && c.chance(3, 4)) { auto it = k.pages.begin(); std::advance(it, c.below(k.pages.size())); return it->first + c.below(k.page); }
  auto it = k.blocks.begin(); std::advance(it, c.below(k.blocks.size())); return *it + c.below(512); }

static void compound(Case &c) {
  sas_join(c); sasClearOnDealloc = 1; RegionLists r0, r1; check_region(c, r0);
  u64 used0 = RegionLists::sum(r0.used), tag = 1; std::vector<Comp> hs; u64 n = c.range(1, c.thorough ? 500 : 200); bool deep = c.rarely(1, 12); if (deep) n = 700;
  u64 allocs = 0, frees = 0, grow = 0; int wf = (int)c.range(1, 6);
  auto destroy = [&](size_t i) { Comp k = hs[i]; for (auto &x : k.pages) check_page(c, x.second); c.log("destroy %p with %zu blocks, %zu pages", k.h, k.blocks.size(), k.pages.size());
    if (k.outer) { SASBlockDealloc(k.outer, k.outern); }        // the caller's block
    else if (c.chance(1, 2)) SASCompoundHeapDestroy(k.h); else SASCompoundHeapDestroyNoLock(k.h);
    hs.erase(hs.begin() + i);
    RegionLists r; check_region(c, r); u64 e = 0; for (auto &x : hs) e += x.outer ? x.outern : x.blocks.size() * x.size;
    for (auto &x : hs) if (!x.outer) { u64 cap = x.blocks.size(); if (cap > 254) { u64 s = 8192; while (s < x.size) s *= 2; e += s; } }
    u64 u = RegionLists::sum(r.used) - used0; CHECK(u == e, "leak", "after destroying a compound heap %lx bytes of region are in use, expected %lx", u, e); };
  for (u64 op = 0; op < n; op++) {
    u64 w = c.below(16);
    if (hs.empty() || (hs.size() < 3 && w == 0 && !deep)) {
      Comp k; k.page = 1ull << (9 + c.below(6)); k.size = 0; k.exp = k.inited = false; k.load = 100; int kind = deep ? 0 : (int)c.below(4);
      u64 mn = k.page < 4096 ? 8192 : 2 * k.page; k.size = mn << (deep ? 0 : c.below(5)); if (deep) { k.page = 4096; k.size = 8192; }
      if (kind == 1) { k.page = 4096; k.h = SASCompoundFixedHeapCreate(k.size); }
      else if (kind == 2) { k.exp = c.rarely(1, 3); k.outern = k.size << c.below(2); if (k.exp) k.outern = k.size; k.outer = SASBlockAlloc(k.outern); CHECK(k.outer, "create", "block"); if (k.size <= 65536) for (u64 o = 0; o < k.outern; o += 8) *(u64 *)((char *)k.outer + o) = o * 0x9E3779B97F4A7C15ull | 1;
        char *at = (char *)k.outer + (k.outern > k.size && c.chance(1, 2) ? k.size : 0); k.h = SASCompoundHeapInit(at, k.size, k.page, k.exp); k.inited = true; if (k.exp) { k.outer = nullptr; } }
      else if (kind == 3) { k.page = 4096; k.exp = true; k.h = SASCompoundHeapCreate(k.size); }
      else { k.exp = true; k.h = SASCompoundHeapCreatePageSize(k.size, k.page); }
      CHECK(k.h, "create", "heap of %lx with pages of %lx refused", k.size, k.page); if (k.exp) k.load = 75; k.hdr = std::max<u64>(4096, k.page); k.blocks.insert((u64)k.h);
      CHECK(SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)k.h) == k.load, "load", "load factor %d of a new heap, expected %ld", SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)k.h), k.load);
      if (k.exp && c.rarely(1, 3)) { k.load = 1 + c.below(100); SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)k.h, k.load); CHECK(SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)k.h) == k.load, "load", "load factor"); }
      c.log("heap %p: %lx, pages %lx%s%s load %ld", k.h, k.size, k.page, k.exp ? " expanding" : "", k.inited ? " in a caller's block" : "", k.load);
      hs.push_back(k); audit(c, hs); continue; }
    size_t i = c.below(hs.size()); Comp &k = hs[i]; size_t b0 = k.blocks.size();
    if (w == 15 && c.rarely(1, 6)) { destroy(i); continue; }
    bool lock = c.chance(1, 2); 
    if ((int)(w % 8) < wf || deep) { bool pcq = c.rarely(1, 3); bool nr = c.rarely(2, 5) && !(deep && c.chance(9, 10)); void *p;
      if (nr) { u64 at = some_address(c, k, true); p = pcq ? (lock ? SPHCompoundPCQNearAlloc((void *)at) : SPHCompoundPCQNearAllocNoLock((void *)at)) : (lock ? SASCompoundHeapNearAlloc((void *)at) : SASCompoundHeapNearAllocNoLock((void *)at));
        c.log("alloc %s near %lx -> %p", pcq ? "queue" : "heap", at, p); got(c, hs, i, p, pcq, at, tag, "an allocation near an address"); }
      else { p = pcq ? (lock ? SPHCompoundPCQAlloc(k.h) : SPHCompoundPCQAllocNoLock(k.h)) : (lock ? SASCompoundHeapAlloc(k.h) : SASCompoundHeapAllocNoLock(k.h));
        c.log("alloc %s from %p -> %p", pcq ? "queue" : "heap", k.h, p); got(c, hs, i, p, pcq, 0, tag, "an allocation"); }
      allocs++; if (k.blocks.size() > b0) grow++; }
    else if (w == 12 && !deep && c.rarely(1, 5)) { void *p = SASCompoundHeapExpandCreate(k.h); c.log("forced expansion of %p -> %p", k.h, p); // by hand
      if (!k.exp) CHECK(!p, "expand", "a fixed heap was expanded"); else { CHECK(p, "expand", "forced expansion refused"); u64 nb = (u64)p; Ival ov{nb, k.size}; (void)ov;
        for (auto &x : hs) for (u64 b : x.blocks) CHECK(b + x.size <= nb || nb + k.size <= b, "overlap", "expansion %lx overlaps block %lx", nb, b); k.blocks.insert(nb); } audit(c, hs); }
    else if (w < 15 && !k.pages.empty()) { auto it = k.pages.begin(); std::advance(it, c.below(k.pages.size())); Page p = it->second; check_page(c, p); int how = (int)c.below(3);
      if (how == 2 && p.pcq && k.page < 512) how = 0;
      c.log("free %s %lx %s", p.pcq ? "queue" : "heap", p.a, how == 2 ? "by an address inside" : "");
      if (how == 2) { void *at = (void *)(p.a + c.below(k.page)); if (lock) SASCompoundHeapNearDealloc(at); else SASCompoundHeapNearDeallocNoLock(at); }
      else if (p.pcq) { if (lock) SPHCompoundPCQFree(k.h, (void *)p.a); else SPHCompoundPCQFreeNoLock(k.h, (void *)p.a); }
      else { if (lock) SASCompoundHeapFree(k.h, (void *)p.a); else SASCompoundHeapFreeNoLock(k.h, (void *)p.a); }
      k.pages.erase(p.a); frees++; }
    else if (w == 14 || k.pages.empty()) { // frees that must have no effect
      int bad = (int)c.below(4); u64 at = 0; Comp &o = hs[c.below(hs.size())];
      if (bad == 0 && &o != &k && !o.pages.empty()) { Page &q = o.pages.begin()->second; at = q.a; if (q.pcq) SPHCompoundPCQFree(k.h, (void *)at); else SASCompoundHeapFree(k.h, (void *)at); c.log("free of a page of another heap"); }
      else if (bad == 1 && !k.pages.empty()) { Page &q = k.pages.begin()->second; at = q.a; if (!q.pcq) SPHCompoundPCQFree(k.h, (void *)at); else SASCompoundHeapFree(k.h, (void *)at); c.log("free as the wrong kind"); }
      else if (bad == 2) { SASCompoundHeapFree(k.h, k.h); SPHCompoundPCQFreeNoLock(k.h, k.h); c.log("free of the heap itself"); }
      else { at = some_address(c, k, false); if (lock) SASCompoundHeapNearDealloc((void *)at); else SASCompoundHeapNearDeallocNoLock((void *)at); c.log("free near %lx, which is in no page", at); }
      }
    if (c.rarely(1, 6)) audit(c, hs);
  }
  audit(c, hs); for (auto &k : hs) for (auto &x : k.pages) check_page(c, x.second);
  // every lock was given back: another thread can use each heap
  static std::vector<Comp> *H; H = &hs; pthread_t t;
  pthread_create(&t, nullptr, [](void *) -> void * { for (auto &k : *H) { SASCompoundHeapFreeSpace(k.h); for (u64 b : k.blocks) { SASLock((void *)b, SasUserLock__WRITE); SASUnlock((void *)b); } } return nullptr; }, nullptr);
  pthread_join(t, nullptr);
  // give everything back: free all pages first in some heaps, then the heap's whole capacity can be had again
  while (!hs.empty()) { Comp &k = hs.back();
    if (c.chance(1, 2)) { std::vector<u64> v; for (auto &x : k.pages) v.push_back(x.first); while (!v.empty()) { size_t j = c.below(v.size()); u64 a = v[j]; v[j] = v.back(); v.pop_back(); check_page(c, k.pages[a]); if (k.pages[a].pcq) SPHCompoundPCQFree(k.h, (void *)a); else SASCompoundHeapFree(k.h, (void *)a); k.pages.erase(a); }
      audit(c, hs); u64 cap = (k.size - k.hdr) / k.page; 
      if (!k.exp) { for (u64 j = 0; j < cap; j++) got(c, hs, hs.size() - 1, SASCompoundHeapAlloc(k.h), false, 0, tag, "an allocation"); CHECK(!SASCompoundHeapAlloc(k.h), "too-much", "more pages than fit"); } }
    bool out = k.outer; (void)out; destroy(hs.size() - 1); }
  sasClearOnDealloc = 0;
  c.count("allocs", allocs); c.count("frees", frees); c.count("growths", grow); if (deep) c.count("deep"); if (frees > 2 && allocs > 4) c.nontrivial();
}
PBT_TEST_X(C03, compound, 1, 0, 8, 6) { compound(c); }
PBT_TEST_X(A04, compound_calls, 1, 0, 8, 6) { compound(c); } // every call gives back its locks
