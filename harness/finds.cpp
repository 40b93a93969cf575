// C06 an object is found from any address inside it, and operations near an address act on that object
#include "sas.h"
#include "sphmultipcqueue.h"
using namespace pbt;

enum Kind { RAW, HEAP, STACK, SPACE, COMP, PCQC, INDEX, TREE, CTX, LFH, LOG, PORTAL, QUEUE, MPMC, SUB, PCQ, INNER_HEAP, INNER_STACK };
static const char *kname[] = {"raw block", "heap", "stack", "space", "compound heap", "queue heap", "index", "string tree", "context", "lock-free heap", "logger", "portal", "queue", "mpmc queue", "sub-heap", "sub-queue", "inner heap", "inner stack"};
struct Piece { u64 a, n, tag; };
struct Node { u64 a, n; Kind k; std::vector<Piece> p; };            // a thing with a header, or a raw block
struct Obj {
  Kind k; u64 h, n, page = 0; bool fixed = false;
  std::map<u64, u64> blocks;                                          // of the region: address, size
  std::map<u64, Node> parts;                                          // sub-heaps, inner objects
  std::vector<Piece> p; std::set<u64> nodes; u64 keys = 0;
};
struct Finds {
  Case &c; std::map<u64, Obj> o; u64 tag = 1; RegionLists r;
  Finds(Case &c) : c(c) {}
  Obj *owner(u64 a) { for (auto &x : o) for (auto &b : x.second.blocks) if (a >= b.first && a < b.first + b.second) return &x.second; return nullptr; }
  // new blocks of the region belong to the object that was worked on
  void claim(Obj &k) { auto now = used(); // (the list merges neighbours)
    for (auto &x : o) for (auto &b : x.second.blocks) { bool in = take(now, b.first, b.second); CHECK(in, "region", "block %lx of the %s %lx is no longer in use after an operation on the %s %lx", b.first, kname[x.second.k], x.second.h, kname[k.k], k.h); }
    for (auto &x : now) { u64 s = k.k == CTX ? x.second : k.n; for (u64 a = x.first; a < x.first + x.second; a += s) k.blocks[a] = std::min(s, x.first + x.second - a); } }
  std::map<u64, u64> used() { r.load(); std::map<u64, u64> m; for (auto &x : r.used) { u64 a = x.a, n = x.n; if (a == getMemLow()) { a += 1 << 20; n -= 1 << 20; } if (n) m[a] = n; } return m; }
  static bool take(std::map<u64, u64> &m, u64 a, u64 n) { auto it = m.upper_bound(a); if (it == m.begin()) return false; --it; u64 x = it->first, s = it->second; if (a + n > x + s) { // neighbours may be listed apart
      if (a < x || a >= x + s) return false; u64 part = x + s - a; if (!take(m, a, part)) return false; return take(m, a + part, n - part); }
    m.erase(it); if (a > x) m[x] = a - x; if (a + n < x + s) m[a + n] = x + s - a - n; return true; }
  static bool opaque(Kind k) { return k == INDEX || k == TREE || k == CTX; }
  static bool heapish(Kind k) { return k == HEAP || k == SUB || k == INNER_HEAP; }
  // the object that must be found from an address: null, or the address and kind of its header (RAW with opaque: see found())
  struct Found { u64 a; Kind k; u64 n; Obj *o; };
  Found expect(u64 a) { Obj *k = owner(a); if (!k) return {0, RAW, 0, nullptr};
    auto it = k->parts.upper_bound(a); if (it != k->parts.begin()) { --it; if (a < it->first + it->second.n) return {it->first, it->second.k, it->second.n, k}; }
    if (k->k == RAW) return {0, RAW, 0, k};
    for (auto &b : k->blocks) if (a >= b.first && a < b.first + b.second) return {b.first, k->k, b.second, k};
    return {0, RAW, 0, k}; }
  void find(u64 a) {
    SASBlockHeader *g = SASFindHeader((void *)a); Found e = expect(a); c.count(e.o ? kname[e.o->k] : "free memory");
    if (e.o && opaque(e.o->k)) {
      u64 b = e.a; CHECK(g, "find-null", "nothing is found from %lx inside the %s %lx (block %lx+%lx)", a, kname[e.o->k], e.o->h, b, e.n);
      CHECK((u64)g >= b && (u64)g <= a && (u64)g + g->blockSize > a && (u64)g + g->blockSize <= b + e.n, "find-wrong", "%p+%lx is found from %lx inside the %s %lx (block %lx+%lx)", g, (u64)g->blockSize, a, kname[e.o->k], e.o->h, b, e.n);
      return; }
    if (!e.a) { CHECK(!g, "find-outside", "%p (type %x, size %lx) is found from %lx, which is in %s", g, g->blockType, (u64)g->blockSize, a, e.o ? "a raw block" : "free memory"); return; }
    CHECK((u64)g == e.a, "find-wrong", "%p is found from %lx, which is inside the %s %lx+%lx", g, a, kname[e.k], e.a, e.n);
  }
  u64 address() { // anywhere worth asking
    u64 a; int w = (int)c.below(10);
    if (w == 0 || o.empty()) { r.load(); auto &v = c.chance(1, 2) ? r.free_ : r.uncommitted; if (!v.empty()) { auto &x = v[c.below(v.size())]; return x.a + spot(std::min<u64>(x.n, 1 << 20)); } if (o.empty()) return getMemLow() + (1 << 20) + c.below(1 << 20); }
    auto it = o.begin(); std::advance(it, c.below(o.size())); Obj &k = it->second;
    if (!k.parts.empty() && w < 6) { auto p = k.parts.begin(); std::advance(p, c.below(k.parts.size())); a = p->first + spot(p->second.n); return a; }
    auto b = k.blocks.begin(); std::advance(b, c.below(k.blocks.size())); return b->first + spot(b->second);
  }
  u64 spot(u64 n) { switch (c.below(5)) { case 0: return 0; case 1: return n - 1 - c.below(std::min<u64>(n, 64)); case 2: { u64 m = 512ull << c.below(20); u64 x = (m + c.below(3) - 1); return x < n ? x : n / 2; } case 3: return c.below(std::min<u64>(n, 512)); default: return c.below(n); } }
  // a hash of every object but one (and of all memory of that one outside [lo,hi) if given)
  static u64 hash(u64 a, u64 n) { u64 h = 1; const u64 *p = (const u64 *)a; for (u64 i = 0; i < n / 8; i++) h = h * 31 + p[i]; return h; }
  std::map<u64, u64> sums(u64 not_block) { std::map<u64, u64> m; for (auto &x : o) for (auto &b : x.second.blocks) if (b.first != not_block) m[b.first] = hash(b.first, std::min<u64>(b.second, 262144)); return m; }
  void same(const std::map<u64, u64> &m, const char *what, u64 a) { for (auto &x : m) { Obj *k = owner(x.first); if (!k || !k->blocks.count(x.first)) continue; u64 n = std::min<u64>(k->blocks[x.first], 262144); CHECK(hash(x.first, n) == x.second, "elsewhere", "%s near %lx changed block %lx of the %s %lx", what, a, x.first, kname[k->k], k->h); } }
  void free_of(const std::vector<Piece> &v, u64 a, u64 n, const char *what) { for (auto &x : v) CHECK(a + n <= x.a || x.a + x.n <= a, "overlap", "%s gives %lx+%lx, which overlaps the live %lx+%lx", what, a, n, x.a, x.n); }
  std::vector<Piece> &pieces(const Found &e) { if (e.k == SUB || e.k == INNER_HEAP || e.k == INNER_STACK) return e.o->parts.at(e.a).p; return e.o->p; }
  u64 gap(const Found &e) { std::map<u64, u64> m; for (auto &x : pieces(e)) m[x.a] = x.n; u64 at = e.a + 128, g = 0; for (auto &x : m) { g = std::max(g, x.first - at); at = x.first + x.second; } return std::max(g, e.a + e.n - at); }
  void check_pieces(const std::vector<Piece> &v) { for (auto &x : v) { long d = check_fill((void *)x.a, x.n, x.tag); CHECK(d < 0, "contents", "piece %lx+%lx changed at %ld", x.a, x.n, d); } }

  void create() {
    Obj k; k.k = (Kind)c.below(MPMC + 1); u64 n = 8192ull << c.below(c.chance(1, 8) ? 8 : 4); k.n = n; u64 pg = 512ull << c.below(6);
    switch (k.k) {
      case RAW: k.h = (u64)SASBlockAlloc(n); if (k.h) { if (c.chance(1, 2)) fill((void *)k.h, std::min<u64>(n, 65536), tag += 3); else memset((void *)k.h, 0, std::min<u64>(n, 65536)); } break;
      case HEAP: k.h = (u64)SASSimpleHeapCreate(n); break;
      case STACK: k.h = (u64)SASSimpleStackCreate(n); break;
      case SPACE: k.h = (u64)SASSimpleSpaceCreate(n - 4096); break;
      case COMP: case PCQC: { if (k.k == PCQC && pg < 1024) pg = 1024; while (n < 2 * pg) n *= 2; k.n = n; k.page = pg; if (c.chance(1, 4)) { k.page = 4096; k.fixed = true; k.h = (u64)SASCompoundFixedHeapCreate(n); } else k.h = (u64)SASCompoundHeapCreatePageSize(n, pg); break; }
      case INDEX: n *= 8; k.h = (u64)(pg > 4096 ? SASIndexCreatePageSize(n, pg) : SASIndexCreate(n)); break;
      case TREE: n *= 8; if (pg > 4096) k.page = pg; else k.page = 4096; k.h = (u64)(pg > 4096 ? SASStringBTreeCreatePageSize(n, pg) : SASStringBTreeCreate(n)); break;
      case CTX: n = 65536; k.h = (u64)SPHContextCreate(n); break;
      case LFH: k.page = 16ull << c.below(3); while (n / k.page > 1024) k.page *= 2; k.h = (u64)SPHLockFreeHeapCreate(n, k.page); break;
      case LOG: k.h = (u64)SPHLFLoggerCreate(n); break;
      case PORTAL: k.h = (u64)SPHLogPortalCreate(n); break;
      case QUEUE: k.h = (u64)SPHSinglePCQueueCreateWithStride(n, 128); break;
      default: k.h = (u64)SPHMPMCQCreateWithStride(n, 128); break; }
    k.n = n; CHECK(k.h, "create", "no %s of %lx", kname[k.k], n);
    Obj *was = owner(k.h); CHECK(!was, "overlap", "the new %s %lx lies in the %s %lx", kname[k.k], k.h, kname[was->k], was->h);
    Obj &x = o[k.h] = k; claim(x); c.log("%s %lx of %lx%s, %zu blocks", kname[k.k], k.h, n, k.fixed ? " fixed" : "", x.blocks.size());
  }
  void destroy() {
    auto it = o.begin(); std::advance(it, c.below(o.size())); Obj k = it->second; bool nl = c.chance(1, 2);
    c.log("destroy the %s %lx with %zu blocks, %zu parts", kname[k.k], k.h, k.blocks.size(), k.parts.size());
    check_pieces(k.p); for (auto &p : k.parts) check_pieces(p.second.p);
    for (auto &p : k.parts) if (p.second.k >= INNER_HEAP) memset((void *)p.first, 0, p.second.n);   // the caller's own headers
    auto m = sums(0);
    switch (k.k) {
      case RAW: SASBlockDealloc((void *)k.h, k.n); break;
      case HEAP: if (nl) SASSimpleHeapDestroyNoLock((SASSimpleHeap_t)k.h); else SASSimpleHeapDestroy((SASSimpleHeap_t)k.h); break;
      case STACK: SASSimpleStackDestroy((SASSimpleStack_t)k.h); break;
      case SPACE: SASSimpleSpaceDestroy((SASSimpleSpace_t)k.h); break;
      case COMP: case PCQC: if (nl) SASCompoundHeapDestroyNoLock((SASCompoundHeap_t)k.h); else SASCompoundHeapDestroy((SASCompoundHeap_t)k.h); break;
      case INDEX: SASIndexDestroy((SASIndex_t)k.h); break;
      case TREE: if (nl) SASStringBTreeDestroyNoLock((SASStringBTree_t)k.h); else SASStringBTreeDestroy((SASStringBTree_t)k.h); break;
      case CTX: SPHContextDestroy((SPHContext_t)k.h); break;
      case LFH: SPHLockFreeHeapDestroy((SPHLockFreeHeap_t)k.h); break;
      case LOG: SPHLFLoggerDestroy((SPHLFLogger_t)k.h); break;
      case PORTAL: SPHLogPortalDestroy((SPHLogPortal_t)k.h); break;
      case QUEUE: SPHSinglePCQueueDestroy((SPHSinglePCQueue_t)k.h); break;
      default: SPHMPMCQDestroy((SPHMPMCQ_t)k.h); }
    o.erase(it); same(m, "destroying", k.h); auto now = used();
    for (auto &x : o) for (auto &b : x.second.blocks) CHECK(take(now, b.first, b.second), "region", "block %lx of the %s %lx is no longer in use", b.first, kname[x.second.k], x.second.h);
    CHECK(now.empty(), "leak", "block %lx is still in use after destroying the %s %lx", now.begin()->first, kname[k.k], k.h);
    // nothing is found any more where it was
    for (auto &b : k.blocks) for (int i = 0; i < 3; i++) { u64 a = b.first + spot(b.second); SASBlockHeader *g = SASFindHeader((void *)a); CHECK(!g, "find-outside", "%p (type %x) is found from %lx, inside the destroyed %s %lx", g, g->blockType, a, kname[k.k], k.h); }
    for (auto &p : k.parts) { u64 a = p.first + spot(p.second.n); SASBlockHeader *g = SASFindHeader((void *)a); CHECK(!g, "find-outside", "%p (type %x) is found from %lx, inside the %s %lx of the destroyed %s %lx", g, g->blockType, a, kname[p.second.k], p.first, kname[k.k], k.h); }
  }
  // ordinary use, so that the objects are not all fresh
  void use() {
    auto it = o.begin(); std::advance(it, c.below(o.size())); Obj &k = it->second; u64 n = 16 * c.range(1, 30); u64 h = k.h;
    auto m = sums(0); for (auto &b : k.blocks) m.erase(b.first);
    switch (k.k) {
      case RAW: { u64 s = 512ull << c.below(7); if (s > k.n) s = 512; u64 at = h + s * c.below(k.n / s); for (auto &p : k.parts) if (at < p.first + p.second.n && p.first < at + s) return;
        bool st = c.chance(1, 3) && s >= 8192; if (st) SASSimpleStackInit((void *)at, s); else SASSimpleHeapInit((void *)at, SAS_RUNTIME_SIMPLEHEAP, s); k.parts[at] = Node{at, s, st ? INNER_STACK : INNER_HEAP, {}}; c.log("%s %lx+%lx inside the raw block %lx", st ? "stack" : "heap", at, s, h); break; }
      case HEAP: { u64 a = (u64)SASSimpleHeapAlloc((SASSimpleHeap_t)h, n); if (a) { free_of(k.p, a, n, "SASSimpleHeapAlloc"); fill((void *)a, n, ++tag); k.p.push_back({a, n, tag}); } break; }
      case STACK: { u64 a = (u64)SASSimpleStackAlloc((SASSimpleStack_t)h, n); if (a) { free_of(k.p, a, n, "SASSimpleStackAlloc"); fill((void *)a, n, ++tag); k.p.push_back({a, n, tag}); } break; }
      case COMP: { u64 s = (u64)SASCompoundHeapAlloc((SASCompoundHeap_t)h); if (s) part(k, s, SUB, "SASCompoundHeapAlloc"); break; }
      case PCQC: { u64 s = (u64)SPHCompoundPCQAlloc((SASCompoundHeap_t)h); if (s) part(k, s, PCQ, "SPHCompoundPCQAlloc"); break; }
      case INDEX: { SASIndexKey_t key; for (u64 j = 0, e = c.range(1, 60); j < e; j++) { SASIndexKeyInitUInt64(&key, (k.keys * 7919) & 0xffff); int rc = SASIndexPut((SASIndex_t)h, &key, (void *)(h + k.keys)); CHECK(rc, "index", "put %lu refused", k.keys); k.keys++; } break; }
      case TREE: { char b[32]; for (u64 j = 0, e = c.range(1, 60); j < e; j++) { snprintf(b, sizeof b, "%lu-key", k.keys * 7919 % 65521); int rc = SASStringBTreePut((SASStringBTree_t)h, b, (void *)(h + k.keys)); CHECK(rc, "tree", "put %s refused", b); k.keys++; } break; }
      case CTX: { char b[32]; snprintf(b, sizeof b, "name%lu", k.keys); if (k.keys < 60) { int rc = SPHContextAddName((SPHContext_t)h, b, (void *)(h + 8 * k.keys)); CHECK(rc, "context", "naming %s refused", b); k.keys++; } break; }
      case LFH: { n = k.page * c.range(1, 8); u64 a = (u64)SPHLockFreeHeapAlloc((SPHLockFreeHeap_t)h, n); if (a) { free_of(k.p, a, n, "SPHLockFreeHeapAlloc"); fill((void *)a, n, ++tag); k.p.push_back({a, n, tag}); } break; }
      case LOG: { SPHLFLoggerHandle_t hd; SPHLFLoggerAllocTimeStamped((SPHLFLogger_t)h, 1, 2, 32, &hd); break; }
      default: return; }
    if (c.rarely(1, 6) || k.k == COMP || k.k == PCQC || opaque(k.k)) claim(k); same(m, "ordinary use", h);
  }
  void part(Obj &k, u64 s, Kind kind, const char *what) {
    Obj *was = owner(s); CHECK(!was || was == &k, "elsewhere", "%s on %lx gives %lx, inside the %s %lx", what, k.h, s, kname[was->k], was->h); claim(k); was = owner(s);
    CHECK(was == &k && (s & (k.page - 1)) == 0, "elsewhere", "%s on %lx gives %lx, which is no page of it", what, k.h, s);
    for (auto &p : k.parts) CHECK(s != p.first, "overlap", "%s gives the live %lx", what, s);
    k.parts[s] = Node{s, k.page, kind, {}}; c.log("%s %lx of %lx", kname[kind], s, k.h); }

  void near() {
    u64 a = address(); Found e = expect(a); u64 n = 16 * c.range(1, 40); void *p = (void *)a; int w = (int)c.below(12); bool nl = c.chance(1, 2);
    bool fam = e.o && (opaque(e.o->k)); u64 blk = 0; if (e.o) for (auto &b : e.o->blocks) if (a >= b.first && a < b.first + b.second) blk = b.first;
    switch (w) {
      case 0: { auto m = sums(0); u64 g = (u64)SASSimpleHeapNearFind(p); if (!fam) CHECK(g == (heapish(e.k) && e.a ? e.a : 0), "near-find", "SASSimpleHeapNearFind(%lx) = %lx inside the %s %lx", a, g, kname[e.k], e.a); same(m, "SASSimpleHeapNearFind", a);
        g = (u64)SPHLockFreeHeapNearFind(p); CHECK(g == (e.k == LFH && e.a ? e.a : 0), "near-find", "SPHLockFreeHeapNearFind(%lx) = %lx inside the %s %lx", a, g, e.o ? kname[e.k] : "(free memory)", e.a); same(m, "SPHLockFreeHeapNearFind", a); break; }
      case 1: case 2: case 3: { if (fam) { find(a); break; } bool hp = e.a && heapish(e.k); const char *what = w == 1 && hp ? "SASNearAlloc" : nl ? "SASSimpleHeapNearAllocNoLock" : "SASSimpleHeapNearAlloc";
        auto m = sums(hp ? blk : 0); std::map<u64, u64> f; if (hp) for (auto &x : e.o->parts) if (x.first != e.a) f[x.first] = hash(x.first, x.second.n);
        u64 fr = hp ? SASSimpleHeapFreeSpace((SASSimpleHeap_t)e.a) : 0; u64 mx = hp ? gap(e) : 0;
        u64 g = (u64)(w == 1 && hp ? SASNearAlloc(p, n) : nl ? SASSimpleHeapNearAllocNoLock(p, n) : SASSimpleHeapNearAlloc(p, n)); c.log("%s(%lx, %lu) = %lx: %s %lx", what, a, n, g, kname[e.k], e.a);
        same(m, what, a); for (auto &x : f) CHECK(hash(x.first, e.o->parts[x.first].n) == x.second, "elsewhere", "%s near %lx changed the part %lx", what, a, x.first);
        if (!hp) { CHECK(!g, "near-outside", "%s(%lx, %lu) = %lx, but %lx is in %s", what, a, n, g, a, e.a ? kname[e.k] : e.o ? "a raw block" : "free memory"); c.count("refused"); break; }
        if (!g) { CHECK(mx < n, "near-null", "%s(%lx, %lu) refused, although the heap %lx has a fragment of %lx", what, a, n, e.a, mx); break; }
        CHECK(g >= e.a + 128 && g + n <= e.a + e.n, "near-elsewhere", "%s(%lx, %lu) = %lx is outside the heap %lx+%lx", what, a, n, g, e.a, e.n); auto &v = pieces(e); free_of(v, g, n, what);
        u64 f2 = SASSimpleHeapFreeSpace((SASSimpleHeap_t)e.a); CHECK(f2 + n == fr, "near-space", "%s of %lu took %ld from heap %lx", what, n, fr - f2, e.a); fill((void *)g, n, ++tag); v.push_back({g, n, tag}); c.count("near allocations"); break; }
      case 4: case 5: { // free a piece near itself
        std::vector<Found> hs; for (auto &x : o) { if (x.second.k == HEAP && !x.second.p.empty()) hs.push_back({x.first, HEAP, x.second.n, &x.second}); for (auto &q : x.second.parts) if (heapish(q.second.k) && !q.second.p.empty()) hs.push_back({q.first, q.second.k, q.second.n, &x.second}); }
        if (hs.empty()) break; Found f = hs[c.below(hs.size())]; auto &v = pieces(f); u64 i = c.below(v.size()); Piece q = v[i]; check_pieces(v); blk = 0; for (auto &b : f.o->blocks) if (q.a >= b.first && q.a < b.first + b.second) blk = b.first;
        auto m = sums(blk); u64 fr = SASSimpleHeapFreeSpace((SASSimpleHeap_t)f.a); std::map<u64, u64> t; for (auto &x : f.o->parts) if (x.first != f.a) t[x.first] = hash(x.first, x.second.n);
        if (w == 4) SASNearDealloc((void *)q.a, q.n); else if (nl) SASSimpleHeapNearDeallocNoLock((void *)q.a, q.n); else SASSimpleHeapNearDealloc((void *)q.a, q.n);
        c.log("free near %lx+%lx in the %s %lx", q.a, q.n, kname[f.k], f.a); v[i] = v.back(); v.pop_back(); same(m, "freeing", q.a); for (auto &x : t) CHECK(hash(x.first, f.o->parts[x.first].n) == x.second, "elsewhere", "freeing near %lx changed the part %lx", q.a, x.first);
        u64 f2 = SASSimpleHeapFreeSpace((SASSimpleHeap_t)f.a); CHECK(f2 == fr + q.n, "near-space", "freeing %lu bytes near %lx gave the heap %lx %ld bytes", q.n, q.a, f.a, f2 - fr); check_pieces(v); c.count("near frees"); break; }
      case 6: { // freeing where there is no heap changes nothing
        if (fam || (e.a && heapish(e.k)) || !e.o || e.k == LFH) break; a &= ~15ull; auto m = sums(0); if (nl) SASSimpleHeapNearDeallocNoLock((void *)a, n); else SASSimpleHeapNearDealloc((void *)a, n); int rc = SPHLockFreeHeapFreeNear((void *)a); c.log("free near %lx, in %s", a, kname[e.k]);
        CHECK(rc < 0, "near-outside", "SPHLockFreeHeapFreeNear(%lx) = %d, but it is in %s", a, rc, kname[e.k]); rc = SPHLockFreeHeapFreeNearChk((void *)a, n); CHECK(rc < 0, "near-outside", "SPHLockFreeHeapFreeNearChk(%lx) = %d", a, rc); same(m, "freeing", a); c.count("refused"); break; }
      case 7: { // compound heaps
        if (fam) break; bool in = e.o && e.a && (e.o->k == COMP || e.o->k == PCQC); if (in && e.o->k == PCQC) w = 8; u64 g; auto m = sums(0); if (in) for (auto &b : e.o->blocks) m.erase(b.first); std::map<u64, u64> t; if (in) for (auto &x : e.o->parts) t[x.first] = hash(x.first, x.second.n); const char *what;
        if (w == 8) { what = "SPHCompoundPCQNearAlloc"; g = (u64)(nl ? SPHCompoundPCQNearAllocNoLock(p) : SPHCompoundPCQNearAlloc(p)); } else { what = "SASCompoundHeapNearAlloc"; g = (u64)(nl ? SASCompoundHeapNearAllocNoLock(p) : SASCompoundHeapNearAlloc(p)); }
        c.log("%s(%lx) = %lx in the %s %lx", what, a, g, kname[e.k], e.a); if (in) { for (auto &x : t) CHECK(hash(x.first, e.o->parts[x.first].n) == x.second, "elsewhere", "%s near %lx changed the part %lx", what, a, x.first); }
        if (!in) { CHECK(!g, "near-outside", "%s(%lx) = %lx, but it is in %s", what, a, g, e.a ? kname[e.k] : e.o ? "a raw block" : "free memory"); same(m, what, a); c.count("refused"); break; }
        if (g) part(*e.o, g, w == 8 ? PCQ : SUB, what); else claim(*e.o); same(m, what, a); c.count("near pages"); break; }
      case 8: { // freeing a page near any address in it
        if (fam || !e.o) break; bool in = e.a && e.k == SUB; auto m = sums(0); if (in) for (auto &b : e.o->blocks) m.erase(b.first); std::map<u64, u64> t; if (in) for (auto &x : e.o->parts) if (x.first != e.a) t[x.first] = hash(x.first, x.second.n); if (e.k == PCQ) break;
        u64 fr = in ? SASCompoundHeapFreeSpace((SASCompoundHeap_t)e.o->h) : 0; if (nl) SASCompoundHeapNearDeallocNoLock(p); else SASCompoundHeapNearDealloc(p); c.log("free the page near %lx in the %s %lx", a, kname[e.k], e.a); same(m, "freeing a page", a);
        if (in) { for (auto &x : t) CHECK(hash(x.first, e.o->parts[x.first].n) == x.second, "elsewhere", "freeing the page near %lx changed the part %lx", a, x.first); u64 f2 = SASCompoundHeapFreeSpace((SASCompoundHeap_t)e.o->h); CHECK(f2 == fr + e.o->page, "near-space", "freeing the page near %lx gave its compound heap %ld bytes", a, f2 - fr); e.o->parts.erase(e.a); c.count("near page frees"); SASBlockHeader *g = SASFindHeader(p); u64 b = 0; for (auto &x : e.o->blocks) if (a >= x.first && a < x.first + x.second) b = x.first; CHECK((u64)g == b, "find-wrong", "%p is found from %lx after its page was freed, not block %lx", g, a, b); }
        else c.count("refused"); break; }
      case 9: { bool st = e.a && (e.k == STACK || e.k == INNER_STACK); auto m = sums(st ? blk : 0); u64 d = st ? SASSimpleStackFreeSpace((SASSimpleStack_t)e.a) : 0; u64 g = (u64)(nl ? SASSimpleStackNearAllocNoLock(p, n) : SASSimpleStackNearAlloc(p, n)); c.log("SASSimpleStackNearAlloc(%lx, %lu) = %lx in the %s %lx", a, n, g, kname[e.k], e.a); same(m, "SASSimpleStackNearAlloc", a);
        if (!st) { CHECK(!g, "near-outside", "SASSimpleStackNearAlloc(%lx) = %lx in %s", a, g, kname[e.k]); c.count("refused"); break; }
        if (!g) { CHECK(d < n + 16, "near-null", "SASSimpleStackNearAlloc(%lx, %lu) refused with %lx free", a, n, d); break; } auto &v = pieces(e); CHECK(g > e.a && g + n <= e.a + e.n, "near-elsewhere", "SASSimpleStackNearAlloc(%lx, %lu) = %lx outside the stack %lx+%lx", a, n, g, e.a, e.n); free_of(v, g, n, "SASSimpleStackNearAlloc"); fill((void *)g, n, ++tag); v.push_back({g, n, tag}); c.count("near allocations"); break; }
      case 10: { // lock-free heaps: a piece knows its heap
        if (c.rarely(1, 2)) { // near any address
          bool in = e.a && e.k == LFH; if (in && n >= 32 * e.o->page) n = 31 * e.o->page; u64 un = in ? e.o->page : 16, rn = (n + un - 1) / un * un; if (in && rn > 31 * un) rn = 31 * un; auto m = sums(in ? blk : 0); u64 fr = in ? SPHLockFreeHeapFreeSpace((SPHLockFreeHeap_t)e.a) : 0;
          u64 g = (u64)SPHLockFreeHeapNearAlloc(p, (long)n); c.log("SPHLockFreeHeapNearAlloc(%lx, %lu) = %lx in the %s %lx", a, n, g, kname[e.k], e.a); same(m, "SPHLockFreeHeapNearAlloc", a);
          if (!in) { CHECK(!g, "near-outside", "SPHLockFreeHeapNearAlloc(%lx, %lu) = %lx in %s", a, n, g, e.o ? kname[e.k] : "free memory"); c.count("refused"); break; }
          u64 f2 = SPHLockFreeHeapFreeSpace((SPHLockFreeHeap_t)e.a); auto &v = e.o->p; if (!g) { CHECK(f2 == fr, "near-space", "a refused SPHLockFreeHeapNearAlloc took %ld", fr - f2); CHECK(!v.empty(), "near-null", "SPHLockFreeHeapNearAlloc(%lx, %lu) refused in the empty heap %lx", a, n, e.a); break; }
          CHECK(g >= e.a && g + rn <= e.a + e.n, "near-elsewhere", "SPHLockFreeHeapNearAlloc(%lx, %lu) = %lx is outside the heap %lx+%lx", a, n, g, e.a, e.n); free_of(v, g, rn, "SPHLockFreeHeapNearAlloc"); CHECK(f2 + rn == fr, "near-space", "%lu bytes near %lx took %ld from the heap %lx", n, a, fr - f2, e.a); fill((void *)g, rn, ++tag); v.push_back({g, rn, tag}); check_pieces(v); c.count("near allocations"); break; }
        std::vector<Obj *> hs; for (auto &x : o) if (x.second.k == LFH && !x.second.p.empty()) hs.push_back(&x.second); if (hs.empty()) break; Obj &k = *hs[c.below(hs.size())]; u64 i = c.below(k.p.size()); Piece q = k.p[i]; check_pieces(k.p); auto m = sums(k.h); u64 fr = SPHLockFreeHeapFreeSpace((SPHLockFreeHeap_t)k.h);
        int rc = nl ? SPHLockFreeHeapFreeNear((void *)q.a) : SPHLockFreeHeapFreeNearChk((void *)q.a, q.n); c.log("free %lx+%lx near itself in the lock-free heap %lx", q.a, q.n, k.h); CHECK(rc == 0, "near-null", "SPHLockFreeHeapFreeNear(%lx) = %d in the heap %lx", q.a, rc, k.h); k.p[i] = k.p.back(); k.p.pop_back(); same(m, "freeing", q.a);
        u64 f2 = SPHLockFreeHeapFreeSpace((SPHLockFreeHeap_t)k.h); CHECK(f2 == fr + q.n, "near-space", "freeing %lu bytes near %lx gave the heap %ld", q.n, q.a, f2 - fr); check_pieces(k.p); c.count("near frees"); break; }
      default: { // pages of string trees
        if (e.o && (e.o->k == COMP || e.o->k == PCQC || e.o->k == INDEX)) break; if (e.o && e.o->k == CTX) break; bool in = e.o && e.o->k == TREE; if (in && a - blk < 4096 && a - blk >= 512 && 0) break; auto m = sums(0); if (in) for (auto &b : e.o->blocks) m.erase(b.first);
        if (in && !e.o->nodes.empty() && c.rarely(1, 3)) { u64 g = *e.o->nodes.begin(); u64 x = g + spot(e.o->page); if (nl) SASStringBTreeNearDeallocNoLock((void *)x); else SASStringBTreeNearDealloc((void *)x); c.log("free the tree page near %lx", x); e.o->nodes.erase(g); same(m, "freeing a tree page", x); break; }
        u64 g = (u64)(nl ? SASStringBTreeNearAllocNoLock(p) : SASStringBTreeNearAlloc(p)); c.log("SASStringBTreeNearAlloc(%lx) = %lx in the %s %lx", a, g, kname[e.k], e.a);
        if (!in) { CHECK(!g, "near-outside", "SASStringBTreeNearAlloc(%lx) = %lx in %s", a, g, e.o ? kname[e.k] : "free memory"); same(m, "SASStringBTreeNearAlloc", a); c.count("refused"); break; }
        claim(*e.o); if (g) { Obj *k = owner(g); CHECK(k == e.o && g % e.o->page == 0, "near-elsewhere", "SASStringBTreeNearAlloc(%lx) = %lx is no page of the tree %lx", a, g, e.o->h); CHECK(e.o->nodes.insert(g).second, "overlap", "SASStringBTreeNearAlloc gives the live page %lx", g); c.count("near pages"); } same(m, "SASStringBTreeNearAlloc", a); } }
  }
};
static void world_(Case &c) {
  sas_join(c); if (c.rarely(1, 4)) sasClearOnDealloc = 1; Finds f(c); u64 n = c.range(1, c.thorough ? 250 : 120), done = 0;
  for (u64 i = 0; i < n; i++) { static const int ws[] = {6, 3, 4, 2, 1}; int w = c.weighted(ws, 5);
    if (f.o.empty() || (w == 3 && f.o.size() < 14)) f.create();
    else if (w == 4) f.destroy();
    else if (w == 2) f.use();
    else if (w == 1) f.near();
    else { u64 a = f.address(); f.find(a); done++; } }
  for (auto &x : f.o) { f.check_pieces(x.second.p); for (auto &p : x.second.parts) f.check_pieces(p.second.p); }
  for (int i = 0; i < 20; i++) f.find(f.address());
  RegionLists r; check_region(c, r); if (done > 3 && f.o.size() > 1) c.nontrivial();
}
PBT_TEST(C06, objects, 1) { world_(c); }
PBT_TEST(A04, object_calls, 1) { world_(c); } // every call gives back its locks
