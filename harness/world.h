// A store full of objects of every kind, with its model in memory shared by all processes of a case:
// any joined process can do the next step and any process can compare the store with the model.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "sas.h"
#include "sphlfentry.h"
#include "sphlflogentry.h"
struct World {
  struct P { u64 a, n, tag; }; struct E { u64 k, v; };
  P blk[40]; int nblk;
  u64 heap, lfh, stack, comp, idx, str, ctx, log, q, list, cell, finder;
  P hp[32], lf[32], st[32], sub[16]; int nhp, nlf, nst, nsub, nsubheap;
  E ie[300], se[300], ce[40]; int nie, nse, nce;
  u64 nlog, qh, qt, nlist, tag, cellv, seq, st0; int ownroot;   // the program's own root object, instead of a context
};
namespace world {
using namespace pbt;
static inline World *make() { World *w = (World *)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (w == MAP_FAILED) abort(); return w; }
// big blocks are filled at their ends and in the middle only
static inline void bfill(u64 a, u64 n, u64 tag) { if (n <= 16384) { fill((void *)a, n, tag); return; } fill((void *)a, 4096, tag); fill((void *)(a + n / 2 - 512), 1024, tag + 1); fill((void *)(a + n - 4096), 4096, tag + 2); }
static inline bool bcheck(u64 a, u64 n, u64 tag) { if (n <= 16384) return check_fill((void *)a, n, tag) < 0; return check_fill((void *)a, 4096, tag) < 0 && check_fill((void *)(a + n / 2 - 512), 1024, tag + 1) < 0 && check_fill((void *)(a + n - 4096), 4096, tag + 2) < 0; }
struct LNode { LNode *next; u64 val; };
static inline SASIndexKey_t *key(SASIndexKey_t *k, u64 v) { SASIndexKeyInitUInt64(k, v); return k; }
static inline void skey(char *b, u64 v) { snprintf(b, 24, "key-%lu", v * 7919 % 100003); }
static inline u64 qstride() { return 64; }
static inline u64 idx_count(SASIndex_t i) { u64 n = 0; SASIndexEnum_t e = SASIndexEnumCreate(i); while (SASIndexEnumHasMore(e) && n < 1000000) { SASIndexEnumNext(e); n++; } SASIndexEnumDestroy(e); return n; }
static inline void del(World::P *v, int &n, u64 i) { v[i] = v[--n]; }
static inline void overlap(Case &c, World &w, u64 a, u64 n) { for (int i = 0; i < w.nblk; i++) CHECK(a + n <= w.blk[i].a || w.blk[i].a + w.blk[i].n <= a, "overlap", "new block %lx+%lx overlaps the live block %lx+%lx", a, n, w.blk[i].a, w.blk[i].n); }

// one random change of the store
static inline void step(Case &c, World &w, u64 maxlog = 27) {
  u64 tag = w.tag += 5; int who = (int)(w.seq++ % 1000000);
  switch (c.below(13)) {
    case 0: case 1: {
      if (w.nblk && (w.nblk == 40 || c.chance(1, 3))) { u64 i = c.below(w.nblk); auto b = w.blk[i]; CHECK(bcheck(b.a, b.n, b.tag), "contents", "block %lx+%lx changed", b.a, b.n); c.log("%d: free block %lx+%lx", who, b.a, b.n); SASBlockDealloc((void *)b.a, b.n); del(w.blk, w.nblk, i); }
      else { u64 n = 4096ull << c.below(c.chance(1, 3) ? maxlog - 11 : 6); u64 a = (u64)SASBlockAlloc(n); c.log("%d: block of %lx -> %lx", who, n, a); CHECK(a, "alloc", "no block of %lx", n); CHECK(a % (n < 0x10000000 ? n : 0x10000000) == 0, "align", "block %lx of %lx", a, n); overlap(c, w, a, n); bfill(a, n, tag); w.blk[w.nblk++] = {a, n, tag}; } break; }
    case 2: {
      if (!w.heap) { w.heap = (u64)SASSimpleHeapCreate(65536); CHECK(w.heap, "create", "simple heap"); c.log("%d: simple heap -> %lx", who, w.heap); }
      if (w.nhp && (w.nhp == 32 || c.chance(1, 3))) { u64 i = c.below(w.nhp); auto p = w.hp[i]; CHECK(check_fill((void *)p.a, p.n, p.tag) < 0, "contents", "heap piece %lx changed", p.a); SASSimpleHeapFree((SASSimpleHeap_t)w.heap, (void *)p.a, p.n); del(w.hp, w.nhp, i); c.log("%d: free piece %lx", who, p.a); }
      else { u64 n = 16 * c.range(1, 90); u64 a = (u64)SASSimpleHeapAlloc((SASSimpleHeap_t)w.heap, n); c.log("%d: piece of %lu -> %lx", who, n, a); CHECK(a && a > w.heap && a + n <= w.heap + 65536, "alloc", "no piece of %lu (%lx)", n, a); for (int i = 0; i < w.nhp; i++) CHECK(a + n <= w.hp[i].a || w.hp[i].a + w.hp[i].n <= a, "overlap", "piece %lx overlaps", a); fill((void *)a, n, tag); w.hp[w.nhp++] = {a, n, tag}; } break; }
    case 3: {
      if (!w.lfh) { w.lfh = (u64)SPHLockFreeHeapCreate(64 * 256, 64); CHECK(w.lfh, "create", "lock-free heap"); c.log("%d: lock-free heap -> %lx", who, w.lfh); }
      if (w.nlf && (w.nlf == 32 || c.chance(1, 3))) { u64 i = c.below(w.nlf); auto p = w.lf[i]; CHECK(check_fill((void *)p.a, p.n, p.tag) < 0, "contents", "lock-free piece %lx changed", p.a); CHECK(SPHLockFreeHeapFree((SPHLockFreeHeap_t)w.lfh, (void *)p.a) == 0, "free", "lock-free piece"); del(w.lf, w.nlf, i); }
      else { u64 n = 64 * c.range(1, 4); u64 a = (u64)SPHLockFreeHeapAlloc((SPHLockFreeHeap_t)w.lfh, n); c.log("%d: lock-free piece of %lu -> %lx", who, n, a); CHECK(a, "alloc", "no lock-free piece"); for (int i = 0; i < w.nlf; i++) CHECK(a + n <= w.lf[i].a || w.lf[i].a + w.lf[i].n <= a, "overlap", "piece %lx overlaps", a); fill((void *)a, n, tag); w.lf[w.nlf++] = {a, n, tag}; } break; }
    case 4: {
      if (!w.stack) { w.stack = (u64)SASSimpleStackCreate(65536); CHECK(w.stack, "create", "stack"); w.st0 = SASSimpleStackFreeSpace((SASSimpleStack_t)w.stack); c.log("%d: stack -> %lx", who, w.stack); }
      if (w.nst && (w.nst == 32 || c.chance(1, 3))) { auto p = w.st[w.nst - 1]; CHECK(check_fill((void *)p.a, p.n, p.tag) < 0, "contents", "stack piece %lx changed", p.a); CHECK(SASSimpleStackDealloc((SASSimpleStack_t)w.stack, (void *)p.a) == 0, "free", "pop"); w.nst--; c.log("%d: pop", who); }
      else { u64 n = 16 * c.range(1, 60); u64 a = (u64)SASSimpleStackAlloc((SASSimpleStack_t)w.stack, n); c.log("%d: push %lu -> %lx", who, n, a); CHECK(a, "alloc", "push"); if (w.nst) CHECK(a >= w.st[w.nst - 1].a + w.st[w.nst - 1].n, "overlap", "push below the top"); fill((void *)a, n, tag); w.st[w.nst++] = {a, n, tag}; } break; }
    case 5: {
      if (!w.comp) { w.comp = (u64)SASCompoundHeapCreatePageSize(1 << 20, 8192); CHECK(w.comp, "create", "compound heap"); c.log("%d: compound heap -> %lx", who, w.comp); }
      if (w.nsub && (w.nsub == 16 || c.chance(1, 3))) { u64 i = c.below(w.nsub); auto p = w.sub[i]; CHECK(check_fill((void *)p.a, p.n, p.tag) < 0, "contents", "compound piece %lx changed", p.a); SASNearDealloc((void *)p.a, p.n); del(w.sub, w.nsub, i); c.log("%d: near free %lx", who, p.a); }
      else { u64 n = 16 * c.range(1, 60); u64 h = (u64)SASCompoundHeapAlloc((SASCompoundHeap_t)w.comp); CHECK(h, "alloc", "sub-heap"); u64 a = (u64)SASSimpleHeapAlloc((SASSimpleHeap_t)h, n); c.log("%d: sub-heap %lx piece of %lu -> %lx", who, h, n, a); CHECK(a > h && a + n <= h + 8192, "alloc", "piece in sub-heap"); fill((void *)a, n, tag); w.sub[w.nsub++] = {a, n, tag}; w.nsubheap++; } break; }
    case 6: case 7: {
      if (!w.idx) { w.idx = (u64)SASIndexCreate(1 << 20); CHECK(w.idx, "create", "index"); c.log("%d: index -> %lx", who, w.idx); }
      SASIndexKey_t k; u64 r = c.range(1, 12);
      for (u64 j = 0; j < r; j++) if (w.nie && (w.nie == 300 || c.chance(1, 3))) { u64 i = c.below(w.nie); void *v = SASIndexRemove((SASIndex_t)w.idx, key(&k, w.ie[i].k)); CHECK((u64)v == w.ie[i].v, "index", "removing %lx gave %p, not %lx", w.ie[i].k, v, w.ie[i].v); w.ie[i] = w.ie[--w.nie]; }
      else { u64 kv = c.below(1 << 12) << c.below(40), v = ++w.tag * 8; int i = 0; while (i < w.nie && w.ie[i].k != kv) i++; int rc = SASIndexPut((SASIndex_t)w.idx, key(&k, kv), (void *)v); CHECK((i < w.nie) == !rc, "index", "put of %lx = %d, it was %s", kv, rc, i < w.nie ? "there" : "not there"); if (rc) w.ie[w.nie++] = {kv, v}; }
      c.log("%d: %lu index changes, %d entries", who, r, w.nie); break; }
    case 8: {
      if (!w.str) { w.str = (u64)SASStringBTreeCreate(1 << 20); CHECK(w.str, "create", "string tree"); c.log("%d: string tree -> %lx", who, w.str); }
      char b[24]; u64 r = c.range(1, 12);
      for (u64 j = 0; j < r; j++) if (w.nse && (w.nse == 300 || c.chance(1, 3))) { u64 i = c.below(w.nse); skey(b, w.se[i].k); void *v = SASStringBTreeRemove((SASStringBTree_t)w.str, b); CHECK((u64)v == w.se[i].v, "tree", "removing %s gave %p, not %lx", b, v, w.se[i].v); w.se[i] = w.se[--w.nse]; }
      else { u64 kv = c.below(2000), v = ++w.tag * 8; skey(b, kv); int i = 0; while (i < w.nse && w.se[i].k != kv) i++; int rc = SASStringBTreePut((SASStringBTree_t)w.str, b, (void *)v); CHECK((i < w.nse) == !rc, "tree", "put of %s = %d", b, rc); if (rc) w.se[w.nse++] = {kv, v}; }
      c.log("%d: %lu tree changes, %d entries", who, r, w.nse); break; }
    case 9: {
      if (w.ownroot) break;                                              // the root belongs to the program
      SPHContext_t x = SPHSetupProjectContext("project one"); CHECK(x, "context", "no project context"); CHECK(!w.ctx || w.ctx == (u64)x, "context", "the project context moved from %lx to %p", w.ctx, x); w.ctx = (u64)x;
      char b[24]; if (w.nce && (w.nce == 40 || c.chance(1, 3))) { u64 i = c.below(w.nce); snprintf(b, sizeof b, "name%lu", w.ce[i].k); CHECK(SPHContextRemoveByName(x, b) == 0, "context", "removing %s", b); w.ce[i] = w.ce[--w.nce]; c.log("%d: unname %s", who, b); }
      else { u64 k = c.below(500), v = getMemLow() + ++w.tag * 16; int i = 0; while (i < w.nce && w.ce[i].k != k) i++; snprintf(b, sizeof b, "name%lu", k); int rc = SPHContextAddName(x, b, (void *)v); CHECK((i < w.nce) == !rc, "context", "naming %s = %d", b, rc); if (rc) w.ce[w.nce++] = {k, v}; c.log("%d: name %s -> %lx", who, b, v); } break; }
    case 10: {
      if (!w.log) { w.log = (u64)SPHLFLoggerCreate(16384); CHECK(w.log, "create", "logger"); c.log("%d: logger -> %lx", who, w.log); }
      if (w.nlog < 150) { SPHLFLoggerHandle_t h, *p = SPHLFLoggerAllocTimeStamped((SPHLFLogger_t)w.log, (int)(w.nlog % 1000), 7, 32, &h); CHECK(p, "logger", "no entry"); SPHLFlogEntryAddLong(p, (long)(w.nlog * 3 + 1)); SPHLFLogEntryComplete(p); w.nlog++; c.log("%d: log entry %lu", who, w.nlog); } break; }
    case 11: {
      if (!w.q) { w.q = (u64)SPHSinglePCQueueCreateWithStride(8192, 64); CHECK(w.q, "create", "queue"); c.log("%d: queue -> %lx", who, w.q); }
      SPHLFEntryHandle_t h, *p;
      if (w.qt - w.qh > 0 && (w.qt - w.qh > 60 || c.chance(1, 3))) { p = SPHSinglePCQueueGetNextComplete((SPHSinglePCQueue_t)w.q, &h); CHECK(p, "queue", "nothing delivered with %lu entries", w.qt - w.qh); u64 v = (u64)SPHLFEntryGetNextLong(p); CHECK(v == w.qh * 5 + 2, "queue", "entry %lu holds %lu", w.qh, v); SPHSinglePCQueueFreeNextEntry((SPHSinglePCQueue_t)w.q); w.qh++; c.log("%d: take entry %lu", who, w.qh); }
      else { p = SPHSinglePCQueueAllocStrideEntry((SPHSinglePCQueue_t)w.q, 3, 4, &h); CHECK(p, "queue", "no entry with %lu queued", w.qt - w.qh); SPHLFEntryAddLong(p, (long)(w.qt * 5 + 2)); SPHSinglePCQueueEntryComplete(p); w.qt++; c.log("%d: queue entry %lu", who, w.qt); } break; }
    default: {
      // a linked list whose nodes live in the simple heap (or blocks), and one shared word
      if (!w.cell) { w.cell = (u64)SASBlockAlloc(4096); CHECK(w.cell, "alloc", "cell"); overlap(c, w, w.cell, 4096); ((u64 *)w.cell)[0] = 0; ((u64 *)w.cell)[1] = 0; c.log("%d: cell -> %lx", who, w.cell); }
      if (!w.ctx && c.rarely(1, w.ownroot ? 6 : 20)) { u64 o[] = {w.cell, w.heap, w.idx, w.str, w.stack, w.comp, w.cell + 16}, x = o[c.below(7)]; if (x) { setSASFinder((void *)x); w.finder = x; w.ownroot = 1; c.log("%d: root object -> %lx", who, x); } }
      LNode **head = (LNode **)w.cell; u64 *word = (u64 *)w.cell + 1; CHECK(*word == w.cellv, "contents", "the word at %p is %lu, last written %lu", word, *word, w.cellv); *word = ++w.cellv;
      if (w.heap && w.nlist < 60) { LNode *n = (LNode *)SASNearAlloc((void *)w.heap, sizeof(LNode)); CHECK(n, "alloc", "near"); n->next = *head; n->val = ++w.nlist; *head = n; } c.log("%d: list of %lu", who, w.nlist); } }
}
// the whole store against the model
static inline void verify(Case &c, World &w) {
  for (int i = 0; i < w.nblk; i++) CHECK(bcheck(w.blk[i].a, w.blk[i].n, w.blk[i].tag), "contents", "block %lx+%lx changed", w.blk[i].a, w.blk[i].n);
  for (int i = 0; i < w.nhp; i++) CHECK(check_fill((void *)w.hp[i].a, w.hp[i].n, w.hp[i].tag) < 0, "contents", "heap piece %lx changed", w.hp[i].a);
  for (int i = 0; i < w.nlf; i++) CHECK(check_fill((void *)w.lf[i].a, w.lf[i].n, w.lf[i].tag) < 0, "contents", "lock-free piece %lx changed", w.lf[i].a);
  for (int i = 0; i < w.nst; i++) CHECK(check_fill((void *)w.st[i].a, w.st[i].n, w.st[i].tag) < 0, "contents", "stack piece %lx changed", w.st[i].a);
  for (int i = 0; i < w.nsub; i++) CHECK(check_fill((void *)w.sub[i].a, w.sub[i].n, w.sub[i].tag) < 0, "contents", "compound piece %lx changed", w.sub[i].a);
  if (w.heap) { u64 e = 65536 - 128 - w.nlist * 16; for (int i = 0; i < w.nhp; i++) e -= w.hp[i].n; u64 g = SASSimpleHeapFreeSpace((SASSimpleHeap_t)w.heap); CHECK(g == e, "free-space", "the simple heap has %lx free, the history gives %lx", g, e); }
  if (w.stack) { u64 g = SASSimpleStackFreeSpace((SASSimpleStack_t)w.stack), e = w.st0; for (int i = 0; i < w.nst; i++) e -= w.st[i].n; CHECK(g == e, "depth", "the stack has %lx free, the history gives %lx", g, e); }
  SASIndexKey_t k; char b[24];
  if (w.idx) { for (int i = 0; i < w.nie; i++) { void *v = SASIndexGet((SASIndex_t)w.idx, key(&k, w.ie[i].k)); CHECK((u64)v == w.ie[i].v, "index", "key %lx gives %p, stored %lx", w.ie[i].k, v, w.ie[i].v); } u64 n = idx_count((SASIndex_t)w.idx); CHECK(n == (u64)w.nie, "index", "%lu entries, %d stored", n, w.nie); }
  if (w.str) { for (int i = 0; i < w.nse; i++) { skey(b, w.se[i].k); void *v = SASStringBTreeGet((SASStringBTree_t)w.str, b); CHECK((u64)v == w.se[i].v, "tree", "key %s gives %p, stored %lx", b, v, w.se[i].v); } u64 n = SASStringBTreeGetCurCount((SASStringBTree_t)w.str); CHECK(n == (u64)w.nse, "tree", "%lu entries, %d stored", n, w.nse); }
  if (!w.ctx || w.ownroot) { void *f = getSASFinder(); CHECK((u64)f == w.finder, "root", "the root object is %p, set was %lx", f, w.finder); }
  if (w.ctx) { SPHContext_t x = getProjectContextByName("project one"); CHECK((u64)x == w.ctx, "context", "the project context is %p, was %lx", x, w.ctx); for (int i = 0; i < w.nce; i++) { snprintf(b, sizeof b, "name%lu", w.ce[i].k); void *v = SPHContextFindByName(x, b); CHECK((u64)v == w.ce[i].v, "context", "%s gives %p, bound to %lx", b, v, w.ce[i].v); char *s = (char *)SPHContextFindByAddr(x, (void *)w.ce[i].v); CHECK(s && !strcmp(s, b), "context", "%lx is named %s, bound %s", w.ce[i].v, s ? s : "(null)", b); } }
  if (w.log) { SPHLFLogIterator_t it, *p = SPHLFLoggerCreateIterator((SPHLFLogger_t)w.log, &it); CHECK(p || !w.nlog, "logger", "no iterator"); SPHLFLoggerHandle_t h; for (u64 i = 0; p && i < w.nlog; i++) { SPHLFLoggerHandle_t *e = SPHLFLoggerIteratorNext(p, &h); CHECK(e, "logger", "iteration ends after %lu of %lu entries", i, w.nlog); u64 v = (u64)SPHLFlogEntryGetNextLong(e); CHECK(v == i * 3 + 1 && SPHLFLogEntryCategory(e) == (int)(i % 1000), "logger", "entry %lu holds %lu, category %d", i, v, SPHLFLogEntryCategory(e)); } }
  if (w.q) { CHECK(!SPHSinglePCQueueEmpty((SPHSinglePCQueue_t)w.q) == (w.qt != w.qh), "queue", "empty with %lu entries", w.qt - w.qh); if (w.qt != w.qh) { SPHLFEntryHandle_t h, *p = SPHSinglePCQueueGetNextComplete((SPHSinglePCQueue_t)w.q, &h); CHECK(p, "queue", "nothing delivered with %lu entries", w.qt - w.qh); u64 v = (u64)SPHLFEntryGetNextLong(p); CHECK(v == w.qh * 5 + 2, "queue", "the next entry holds %lu, expected number %lu", v, w.qh); } }
  if (w.cell) { CHECK(((u64 *)w.cell)[1] == w.cellv, "contents", "the word is %lu, last written %lu", ((u64 *)w.cell)[1], w.cellv); u64 n = w.nlist; for (LNode *p = *(LNode **)w.cell; p; p = p->next, n--) CHECK(n && p->val == n, "contents", "list node %p holds %lu instead of %lu", p, p->val, n); CHECK(n == 0, "contents", "the list ends %lu nodes early", n); }
}
// the region's bookkeeping against the model
static inline void account(Case &c, World &w, RegionLists &r) {
  check_region(c, r);
  for (int i = 0; i < w.nblk; i++) CHECK(covered(r.used, w.blk[i].a, w.blk[i].n), "in-use", "live block %lx+%lx is not listed as in use", w.blk[i].a, w.blk[i].n);
}
}
#endif
