// E04, E07: histories of one thread against a model of the slots ("plain")
// E05, E07: producers and consumers on all schedules ("sched") and in free-running threads and processes ("plain")
#include "procs.h"
#define SPH_INTERNAL 1
#include "sphmultipcqueue.h"
#include <deque>
using namespace pbt;
static u64 up(u64 a) { return (a + 15) & ~15ull; }
enum { PLAIN, STAMPED, DIRECT, RAW };
#ifndef VERIF_SCHED
struct Ent { u64 slot, id; int kind, cat, sub; bool done, filled; u64 t0, t1; sphLFEntryID_t tmpl; };
struct Q { void *o; u64 size, stride, s, n; u64 head, tail; std::deque<Ent> v; bool multi; u64 cap() const { return multi ? n : n ? n - 1 : 0; } u64 at(u64 slot) const { return s + slot * stride; } };
static u64 ids;
static u64 hdr(const Ent &x) { return x.kind == STAMPED ? 16 : 4; }
static void body(Q &q, Ent &x) { fill((void *)(q.at(x.slot) + hdr(x)), q.stride - hdr(x), x.id); x.filled = true; }
static void intact(Case &c, Q &q, const Ent &x) { if (!x.filled) return; long d = check_fill((void *)(q.at(x.slot) + hdr(x)), q.stride - hdr(x), x.id); CHECK(d < 0, "contents", "entry %lu in slot %lu of %lu bytes changed at +%lx", x.id, x.slot, q.stride, d + hdr(x)); }
static void geometry(Case &c, Q &q, u64 size, u64 stride) { q.size = size; q.stride = up(stride) & 0xffff; q.s = (u64)q.o + 256; q.n = q.stride ? (size - 256) / q.stride : 0; q.head = q.tail = 0; q.v.clear(); if (q.multi) { u64 n = (u64)SPHMPMCQGetEntries(q.o); CHECK(n <= q.n && n >= (size - 512) / q.stride, "capacity", "%lu entries of %lu bytes in %lu", n, q.stride, size); q.n = n; q.s = 0; } }
static u64 draw_stride(Case &c, u64 size) { switch (c.below(8)) { case 0: return c.rarely(1, 8) ? c.range(65521, 65535) : c.below(65521); case 1: return (size - 256) / c.range(1, 5); case 2: return c.range(1, 40); case 3: return 16; default: return c.range(16, 700); } }
static Q make(Case &c, bool multi) {
  Q q; q.multi = multi; u64 size = 4096ull << c.below(c.rarely(1, 5) ? 8 : 3), stride = draw_stride(c, size); if (stride > 65520 && multi) stride = 65520; if (multi && up(stride) > size - 512) stride = 700; int how = (int)c.below(5); if (!multi && c.rarely(1, 12)) stride = 0; if (multi && !stride) stride = 16; void *b = nullptr;
  if (how < 3) { b = SASBlockAlloc(size); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) fill(b, size, c.below(50)); }
  unsigned opt = c.chance(1, 2) ? SPHSPCQUEUE_CIRCULAR : 0;
  if (multi) q.o = b ? SPHMPMCQInitWithStride(b, size, (unsigned short)stride, opt) : SPHMPMCQCreateWithStride(size, (unsigned short)stride);
  else if (!stride) q.o = b ? SPHSinglePCQueueInit(b, size) : SPHSinglePCQueueCreate(size);
  else q.o = b ? SPHSinglePCQueueInitWithStride(b, size, (unsigned short)stride, opt) : SPHSinglePCQueueCreateWithStride(size, (unsigned short)stride);
  CHECK(q.o && (!b || q.o == b), "create", "queue %p", q.o); geometry(c, q, size, stride); c.log("queue of %lx, stride %lu -> %p, %lu slots", size, q.stride, q.o, q.n); return q; }
static void again(Case &c, Q &q) { u64 st = c.chance(1, 2) ? q.stride : draw_stride(c, q.size); if (st > 65520 && q.multi) st = 65520; if (!st) st = 16; if (q.multi && up(st) > q.size - 512) st = 16; void *o = q.multi ? SPHMPMCQInitWithStride(q.o, q.size, (unsigned short)st, 1) : SPHSinglePCQueueInitWithStride(q.o, q.size, (unsigned short)st, 1); CHECK(o == q.o, "create", "init"); geometry(c, q, q.size, st); c.log("made again with stride %lu: %lu slots", q.stride, q.n); }

// ---- the single producer, single consumer queue
static void reports(Case &c, Q &q) {
  bool none = q.v.empty() || !q.v[0].done; u64 used = q.v.size(); int em = SPHSinglePCQueueEmpty(q.o), fu = SPHSinglePCQueueFull(q.o); u64 fs = SPHSinglePCQueueFreeSpace(q.o);
  CHECK(!!em == none, "empty", "empty %d with %lu entries, the first %s", em, used, q.v.empty() ? "none" : q.v[0].done ? "complete" : "incomplete"); CHECK(!!fu == (used >= q.cap()), "full", "full %d with %lu of %lu entries", fu, used, q.cap()); CHECK(fs == (q.cap() - used) * q.stride, "free-space", "free space %lx with %lu of %lu entries of %lx", fs, used, q.cap(), q.stride); CHECK(SPHSinglePCQueueGetStride(q.o) == (int)q.stride, "stride", "stride %d", SPHSinglePCQueueGetStride(q.o)); }
static void complete(Case &c, Q &q, Ent &x) {
  u64 a = q.at(x.slot); SPHLFEntryHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFEntryHeader_t *)a;
  if (x.kind != RAW) CHECK(!SPHSinglePCQueueEntryIsComplete(&h) && !SPHSinglePCQueueEntryIsCompleteDirect((void *)a) && !SPHLFEntryDirectIsComplete((void *)a) && SPHLFEntryCategory(&h) == -1, "status", "an incomplete entry is reported complete");
  if (x.kind >= DIRECT) CHECK(SPHLFEntryDirectComplete((void *)a, x.tmpl, x.cat, x.sub) == 1, "complete", "direct");
  else switch (c.below(4)) { case 0: CHECK(SPHSinglePCQueueEntryComplete(&h) == 1, "complete", "queue entry"); break; case 1: SPHLFEntryComplete(&h); break; case 2: SPHLFEntryWeakComplete(&h); break; default: SPHLFEntryStrongComplete(&h); }
  CHECK(SPHSinglePCQueueEntryIsComplete(&h) && SPHSinglePCQueueEntryIsCompleteDirect((void *)a) && SPHLFEntryDirectIsComplete((void *)a), "status", "a complete entry is reported incomplete"); x.done = true; c.log("  entry %lu complete", x.id); }
static bool produce(Case &c, Q &q) {
  int kind = (int)c.below(4), spin = kind == DIRECT ? (int)c.below(3) : 0; bool room = q.v.size() < q.cap(); if (!room) spin = 0; Ent x; memset(&x, 0, sizeof x); x.kind = kind; x.slot = q.head; x.id = ++ids; x.cat = (int)c.below(5000) - 300; x.sub = (int)c.below(600) - 100; x.t0 = sphgettimer(); SPHLFEntryHandle_t h; memset(&h, 0xee, sizeof h); u64 a;
  if (kind == PLAIN || kind == STAMPED) { SPHLFEntryHandle_t *r = kind ? SPHSinglePCQueueAllocStrideTimeStamped(q.o, x.cat, x.sub, &h) : SPHSinglePCQueueAllocStrideEntry(q.o, x.cat, x.sub, &h); CHECK(!r || r == &h, "handle", "%p", r); a = r ? (u64)h.entry : 0; if (r) CHECK((u64)h.total_size == (q.stride & 0xffff) && (u64)h.remaining == ((q.stride - hdr(x)) & 0xffff) && h.next == (char *)a + hdr(x), "handle", "entry of %lx: %u bytes, %u left, next +%ld", q.stride, h.total_size, h.remaining, (long)(h.next - (char *)a)); }
  else if (kind == DIRECT) a = (u64)(spin == 0 ? SPHSinglePCQueueAllocStrideDirect(q.o) : spin == 1 ? SPHSinglePCQueueAllocStrideDirectSpin(q.o) : SPHSinglePCQueueAllocStrideDirectSpinPause(q.o));
  else a = (u64)SPHSinglePCQueueAllocRaw(q.o);
  static const char *nm[] = {"entry", "stamped entry", "direct entry", "raw entry"}; c.log("%s %lu -> %lx", nm[kind], x.id, a ? a - q.s : 0);
  CHECK((a != 0) == room, "alloc", "%s with %lu of %lu entries outstanding: %lx", nm[kind], q.v.size(), q.cap(), a); if (!a) return false;
  CHECK(a == q.at(q.head), "place", "entry at +%lx, expected slot %lu at +%lx", a - q.s, q.head, q.at(q.head) - q.s); x.t1 = sphgettimer(); x.tmpl = SPHSinglePCQueueGetEntryTemplate(q.o); x.cat &= 0xfff; x.sub &= 0xff;
  for (auto &y : q.v) CHECK(y.slot != x.slot, "overlap", "slot %lu is handed out twice", x.slot);
  body(q, x); q.v.push_back(x); q.head = (q.head + 1) % q.n; if (c.chance(3, 4)) complete(c, q, q.v.back()); return true; }
static void delivered(Case &c, Q &q, Ent &x, u64 a) {
  CHECK(a == q.at(x.slot), "delivery", "delivered %lx, expected entry %lu in slot %lu at +%lx", a - q.s, x.id, x.slot, q.at(x.slot) - q.s); SPHLFEntryHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFEntryHeader_t *)a;
  CHECK(SPHLFEntryCategory(&h) == x.cat && SPHLFEntrySubcat(&h) == x.sub && SPHLFEntryDirectCategory((void *)a) == x.cat && SPHLFEntryDirectSubcat((void *)a) == x.sub, "category", "category %d/%d, expected %d/%d", SPHLFEntryCategory(&h), SPHLFEntrySubcat(&h), x.cat, x.sub);
  CHECK(!!SPHLFEntryIsTimestamped(&h) == (x.kind == STAMPED) && !!SPHLFEntryDirectIsTimestamped((void *)a) == (x.kind == STAMPED), "stamp", "time-stamped"); if (x.kind == STAMPED) { u64 t = SPHLFEntryTimeStamp(&h); CHECK(t >= x.t0 && t <= x.t1, "stamp", "time stamp %lx, expected %lx..%lx", t, x.t0, x.t1); }
  if (x.kind >= DIRECT) CHECK(SPHLFEntryDirectGetFreePtr((void *)a) == (char *)a + 4 && SPHLFEntryDirectGetPtrAligned((void *)a, 16) == (char *)a + 16, "direct", "pointers"); intact(c, q, x); }
static bool consume(Case &c, Q &q, bool free_it) {
  bool can = !q.v.empty() && q.v[0].done; int how = (int)c.below(5); if (!can && how >= 3) how = 0; u64 a = 0; SPHLFEntryHandle_t h; memset(&h, 0xee, sizeof h);
  switch (how) { case 0: { SPHLFEntryHandle_t *r = SPHSinglePCQueueGetNextComplete(q.o, &h); CHECK(!r || r == &h, "handle", "%p", r); if (r) { a = (u64)h.entry; CHECK((u64)h.total_size == (q.stride & 0xffff) && can && (u64)h.remaining == ((q.stride - hdr(q.v[0])) & 0xffff) && h.next == (char *)a + hdr(q.v[0]), "handle", "delivered handle: %u bytes, %u left, +%ld", h.total_size, h.remaining, (long)(h.next - (char *)a)); } break; }
    case 1: case 2: a = (u64)SPHSinglePCQueueGetNextCompleteDirect(q.o); break; case 3: a = (u64)SPHSinglePCQueueGetNextCompleteDirectSpin(q.o); break; default: a = (u64)SPHSinglePCQueueGetNextCompleteDirectSpinPause(q.o); }
  c.log("next (%d) -> %lx", how, a ? a - q.s : 0); CHECK((a != 0) == can, "delivery", "%s with %lu entries, the first %s", a ? "a delivery" : "no delivery", q.v.size(), q.v.empty() ? "none" : can ? "complete" : "incomplete"); if (can) delivered(c, q, q.v[0], a);
  u64 e = (u64)SPHSinglePCQueueGetNextEntryDirect(q.o); bool any = !q.v.empty() && (q.v[0].done || q.v[0].kind != RAW); CHECK(e == (any ? q.at(q.v[0].slot) : 0), "next", "the next allocated entry is %lx, expected %s", e, any ? "the first one" : "none");
  if (!free_it) return false; int f; u64 t = q.at(q.tail); if (c.chance(1, 2)) f = SPHSinglePCQueueFreeNextEntry(q.o); else { f = q.n && q.n * q.stride <= q.size ? SPHSinglePCQueueFreeNextEntryDirect(q.o, (void *)t) : SPHSinglePCQueueFreeNextEntry(q.o); }
  CHECK((f == 1) == can && (f == 0 || f == 1), "free", "free %d of %s entry", f, can ? "a complete" : "no"); c.log("free: %d", f); if (can) { q.v.pop_front(); q.tail = (q.tail + 1) % q.n; } return can; }
PBT_TEST(E04, histories, 5) {
  sas_join(c); ids = c.below(1000); RegionLists r0; r0.load(); u64 used0 = RegionLists::sum(r0.used); Q q = make(c, false); u64 n = c.range(5, c.thorough ? 800 : 250), made = 0, eaten = 0; int mood = 0; reports(c, q);
  for (u64 i = 0; i < n; i++) {
    if (c.rarely(1, 12)) mood = (int)c.below(3); int k = (int)c.below(20); if (mood == 1 && c.chance(2, 3)) k = 0; if (mood == 2 && c.chance(2, 3)) k = 10;
    if (k < 7) made += produce(c, q); else if (k < 14) eaten += consume(c, q, c.chance(5, 6));
    else switch (k) {
      case 14: case 15: { std::vector<Ent *> p; for (auto &x : q.v) if (!x.done) p.push_back(&x); if (!p.empty()) complete(c, q, *p[c.below(p.size())]); break; }
      case 16: { int o = (int)c.below(6) - 1; if (c.chance(1, 2)) { CHECK(SPHSinglePCQueueSetCachePrefetch(q.o, o) == 0, "prefetch", "option"); c.log("prefetch option %d", o); } else CHECK(SPHSinglePCQueuePrefetch(q.o) == 0, "prefetch", "prefetch"); break; }
      case 17: if (c.rarely(1, 4)) { if (c.chance(1, 2)) { CHECK(SPHSinglePCQueueResetAsync(q.o) == 0, "reset", "reset"); q.head = q.tail = 0; q.v.clear(); c.log("reset"); } else again(c, q); } break;
      case 18: if (c.rarely(1, 12)) { // another process takes a few entries
        u64 m = c.below(q.v.size() + 2); int how = (int)c.below(3); c.log("another process takes up to %lu", m); SASCleanUp(); c.child([&] { sas_join(c); for (u64 j = 0; j < m; j++) { bool can = !q.v.empty() && q.v[0].done; SPHLFEntryHandle_t h; u64 a = 0; if (how == 0) { if (SPHSinglePCQueueGetNextComplete(q.o, &h)) a = (u64)h.entry; } else a = (u64)SPHSinglePCQueueGetNextCompleteDirect(q.o); CHECK((a != 0) == can, "delivery", "delivery to another process: %lx", a); if (can) delivered(c, q, q.v[0], a); CHECK(SPHSinglePCQueueFreeNextEntry(q.o) == (int)can, "free", "free"); if (can) q.v.pop_front(), q.tail = (q.tail + 1) % q.n; } reports(c, q); SASCleanUp(); });
        sas_join(c); for (u64 j = 0; j < m && !q.v.empty() && q.v[0].done; j++) q.v.pop_front(), q.tail = (q.tail + 1) % q.n, eaten++; } break;
      default: for (auto &x : q.v) intact(c, q, x); }
    if (c.chance(1, 2)) reports(c, q); }
  reports(c, q); for (auto &x : q.v) intact(c, q, x); for (auto &x : q.v) if (!x.done) complete(c, q, x); while (!q.v.empty()) consume(c, q, true); CHECK(!consume(c, q, true), "delivery", "delivery from an empty queue"); reports(c, q); if (q.cap() < 600) { for (u64 i = 0; i < q.cap(); i++) CHECK(produce(c, q), "capacity", "entry %lu of %lu", i, q.cap()); CHECK(!produce(c, q), "capacity", "an entry beyond the capacity"); reports(c, q); }
  SASSimpleHeap_t o = SASSimpleHeapCreate(4096); SPHLFEntryHandle_t h; CHECK(!SPHSinglePCQueueAllocRaw(o) && !SPHSinglePCQueueAllocStrideDirect(o) && !SPHSinglePCQueueAllocStrideEntry(o, 1, 1, &h) && !SPHSinglePCQueueAllocStrideTimeStamped(o, 1, 1, &h) && !SPHSinglePCQueueGetNextComplete(o, &h) && !SPHSinglePCQueueGetNextCompleteDirect(o) && !SPHSinglePCQueueFreeNextEntry(o) && SPHSinglePCQueueGetStride(o) == -1 && SPHSinglePCQueueFull(o) && !SPHSinglePCQueueFreeSpace(o) && SPHSinglePCQueueResetAsync(o) && SPHSinglePCQueueDestroy(o), "type", "a heap is used as a queue"); SASSimpleHeapDestroy(o);
  CHECK(SPHSinglePCQueueDestroy(q.o) == 0, "destroy", "destroy"); r0.load(); CHECK(RegionLists::sum(r0.used) == used0, "conservation", "%lx in use before, %lx after", used0, RegionLists::sum(r0.used)); CHECK(!SPHSinglePCQueueAllocRaw(q.o) && !SPHSinglePCQueueGetNextCompleteDirect(q.o) && SPHSinglePCQueueDestroy(q.o), "destroy", "a destroyed queue is used");
  c.count("produced", made); c.count("consumed", eaten); if (eaten > 4) c.nontrivial();
}

// ---- the multi producer, multi consumer queue
struct MQ : Q { std::vector<int> st; std::vector<Ent> e; }; // st: 0 free, 1 allocated, 2 complete, 3 taken
static void mreports(Case &c, MQ &q) {
  static u64 asked; if (asked++ % 64 == 0) CHECK(SPHMPMCQGetStride(q.o) == (int)q.stride, "stride", "stride %d, expected %lu", SPHMPMCQGetStride(q.o), q.stride);
  int em = SPHMPMCQIsEmpty(q.o), fu = SPHMPMCQIsFull(q.o); u64 fs = SPHMPMCQFreeSpace(q.o); CHECK(!!em == (q.st[q.tail] != 2), "empty", "empty %d with slot %lu in state %d", em, q.tail, q.st[q.tail]); CHECK(!!fu == (q.st[q.head] != 0), "full", "full %d with slot %lu in state %d", fu, q.head, q.st[q.head]);
  u64 f = 0; while (f < q.n && q.st[(q.head + f) % q.n] == 0) f++; u64 live = (q.head + q.n - q.tail) % q.n; if (!live && q.st[q.head] == 0) live = 0; CHECK(fs == f * q.stride, "free-space", "free space %lx, expected %lu slots of %lx", fs, f, q.stride); CHECK(SPHMPMCQGetEntries(q.o) == (int)q.n, "entries", "%d entries, expected %lu", SPHMPMCQGetEntries(q.o), q.n); }
static void mcomplete(Case &c, MQ &q, u64 s) { Ent &x = q.e[s]; void *a = (void *)q.at(s); CHECK(!SPHMPMCQEntryDirectIsComplete(a) && !SPHLFEntryDirectIsComplete(a), "status", "an incomplete entry is reported complete"); CHECK(SPHLFEntryDirectComplete(a, x.tmpl, x.cat, x.sub) == 1, "complete", "direct"); CHECK(SPHMPMCQEntryDirectIsComplete(a), "status", "a complete entry is reported incomplete"); q.st[s] = 2; c.log("  entry %lu complete", x.id); }
static bool mproduce(Case &c, MQ &q) {
  bool sync = c.chance(1, 2); u64 a = (u64)(sync ? SPHMPMCQAllocStrideDirectSync(q.o) : SPHSPMCQAllocStrideDirect(q.o)), s = q.head; c.log("entry (%s) -> %lx", sync ? "locked" : "unlocked", a ? a - q.s : 0); CHECK((a != 0) == (q.st[s] == 0), "alloc", "allocation with slot %lu in state %d: %lx", s, q.st[s], a); if (!a) return false; if (!q.s) q.s = a - s * q.stride; CHECK(a == q.at(s), "place", "entry at +%lx, expected slot %lu", a - q.s, s); CHECK(q.s > (u64)q.o && q.s + q.n * q.stride <= (u64)q.o + q.size, "bounds", "%lu entries of %lu from %lx in %lx+%lx", q.n, q.stride, q.s, (u64)q.o, q.size);
  Ent x; memset(&x, 0, sizeof x); x.slot = s; x.id = ++ids; x.kind = DIRECT; x.cat = (int)c.below(4096); x.sub = (int)c.below(256); x.tmpl = SPHMPMCQGetEntryTemplate(q.o); body(q, x); q.e[s] = x; q.st[s] = 1; q.head = (s + 1) % q.n; if (c.chance(3, 4)) mcomplete(c, q, s); return true; }
static bool mtake(Case &c, MQ &q) { bool sync = c.chance(1, 2); u64 s = q.tail, a = (u64)(sync ? SPHMPMCQGetNextCompleteDirectSync(q.o) : SPHMPSCQGetNextCompleteDirect(q.o)); c.log("next (%s) -> %lx", sync ? "locked" : "unlocked", a ? a - q.s : 0); CHECK((a != 0) == (q.st[s] == 2), "delivery", "delivery with slot %lu in state %d: %lx", s, q.st[s], a); if (!a) return false; delivered(c, q, q.e[s], a); q.st[s] = 3; q.tail = (s + 1) % q.n; return true; }
static void mfree(Case &c, MQ &q, u64 s) { intact(c, q, q.e[s]); CHECK(SPHMPMCQFreeEntryDirect(q.o, (void *)q.at(s)) == 1, "free", "free of a taken entry"); q.st[s] = 0; c.log("entry %lu freed", q.e[s].id); }
PBT_TEST(E07, histories, 5) {
  sas_join(c); ids = c.below(1000); RegionLists r0; r0.load(); u64 used0 = RegionLists::sum(r0.used); MQ q; (Q &)q = make(c, true); auto fresh = [&] { q.head = q.tail = 0; q.st.assign(q.n, 0); q.e.assign(q.n, Ent()); }; fresh(); u64 n = c.range(5, c.thorough ? 800 : 250), made = 0, eaten = 0; int mood = 0; mreports(c, q);
  auto pick = [&](int st) -> long { std::vector<u64> p; for (u64 i = 0; i < q.n; i++) if (q.st[i] == st) p.push_back(i); return p.empty() ? -1 : (long)p[c.below(p.size())]; };
  for (u64 i = 0; i < n; i++) {
    if (c.rarely(1, 12)) mood = (int)c.below(4); int k = (int)c.below(20); if (mood == 1 && c.chance(2, 3)) k = 0; if (mood == 2 && c.chance(2, 3)) k = 6; if (mood == 3 && k >= 11 && k < 15) k = 6;
    if (k < 6) made += mproduce(c, q); else if (k < 11) eaten += mtake(c, q); else if (k < 15) { long s = c.chance(1, 3) ? pick(3) : -1; if (s < 0) for (u64 j = 0; j < q.n && s < 0; j++) if (q.st[(q.tail + j) % q.n] == 3) s = (long)((q.tail + j) % q.n); if (s >= 0) mfree(c, q, (u64)s); }
    else if (k < 17) { long s = pick(1); if (s >= 0) mcomplete(c, q, (u64)s); }
    else if (k == 17) { if (c.rarely(1, 4)) { if (c.chance(1, 2)) { CHECK(SPHMPMCQResetAsync(q.o) == 0, "reset", "reset"); c.log("reset"); } else again(c, q); fresh(); } }
    else if (k == 18) { CHECK(SPHMPMCQPrefetch(q.o) == 0, "prefetch", "prefetch"); }
    else for (u64 s = 0; s < q.n; s++) if (q.st[s]) intact(c, q, q.e[s]);
    if (c.chance(1, 2)) mreports(c, q); }
  for (u64 s = 0; s < q.n; s++) { if (q.st[s]) intact(c, q, q.e[s]); if (q.st[s] == 1) mcomplete(c, q, s); } mreports(c, q); while (q.st[q.tail] == 2) mtake(c, q); CHECK(!mtake(c, q), "delivery", "delivery from an empty queue"); for (u64 s = 0; s < q.n; s++) if (q.st[s] == 3) mfree(c, q, s); mreports(c, q); if (q.n < 600) { for (u64 i = 0; i < q.n; i++) CHECK(mproduce(c, q), "capacity", "entry %lu of %lu", i, q.n); CHECK(!mproduce(c, q), "capacity", "an entry beyond the capacity"); mreports(c, q); }
  if (c.rarely(1, 12)) { SASCleanUp(); c.child([&] { sas_join(c); mreports(c, q); for (u64 s = 0; s < q.n; s++) if (q.st[s]) intact(c, q, q.e[s]); while (q.st[q.tail] == 2) mtake(c, q); SASCleanUp(); }); sas_join(c); }
  SASSimpleHeap_t o = SASSimpleHeapCreate(4096); CHECK(!SPHMPMCQAllocStrideDirectSync(o) && !SPHSPMCQAllocStrideDirect(o) && !SPHMPMCQGetNextCompleteDirectSync(o) && !SPHMPSCQGetNextCompleteDirect(o) && SPHMPMCQIsFull(o) && !SPHMPMCQFreeSpace(o) && SPHMPMCQResetAsync(o) && SPHMPMCQDestroy(o) && !SPHMPMCQGetEntryTemplate(o), "type", "a heap is used as a queue"); SASSimpleHeapDestroy(o);
  CHECK(SPHMPMCQDestroy(q.o) == 0, "destroy", "destroy"); r0.load(); CHECK(RegionLists::sum(r0.used) == used0, "conservation", "%lx in use before, %lx after", used0, RegionLists::sum(r0.used)); CHECK(!SPHMPMCQAllocStrideDirectSync(q.o) && SPHMPMCQDestroy(q.o), "destroy", "a destroyed queue is used");
  c.count("produced", made); c.count("consumed", eaten); if (eaten > 4) c.nontrivial();
}
// queues without room for one entry: without a stride, or with one larger than the block
PBT_TEST(E07, no_room, 0.3) {
  sas_join(c); RegionLists r0; r0.load(); u64 used0 = RegionLists::sum(r0.used); int n = (int)c.range(1, 12); struct T { void *o; u64 size; }; std::vector<T> v;
  for (int i = 0; i < n; i++) {
    u64 size = 4096ull << c.below(4), st = c.chance(1, 3) ? 0 : c.chance(1, 2) ? c.range(65521, 65535) : c.range(size - 255, 65535); if (up(st) <= size - 256 && up(st) <= 65535) st = 0; void *o, *b = nullptr; if (c.chance(2, 3)) { b = SASBlockAlloc(size); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) fill(b, size, c.below(50)); }
    // the bytes around the queue belong to somebody else
    void *next = SASBlockAlloc(4096); CHECK(next, "alloc", "block"); fill(next, 4096, 7);
    o = b ? (st ? SPHMPMCQInitWithStride(b, size, (unsigned short)st, (unsigned)c.below(2)) : SPHMPMCQInit(b, size)) : st ? SPHMPMCQCreateWithStride(size, (unsigned short)st) : SPHMPMCQCreate(size);
    c.log("queue of %lx, stride %lu -> %p", size, st, o); CHECK(o && (!b || o == b), "create", "queue %p", o); T t = {o, size}; v.push_back(t);
    for (int k = (int)c.range(1, 8); k--;) { T &q = v[c.below(v.size())]; switch (c.below(6)) {
      case 0: { void *e = c.chance(1, 2) ? SPHMPMCQAllocStrideDirectSync(q.o) : SPHSPMCQAllocStrideDirect(q.o); CHECK(!e, "alloc", "a queue of %lx without room for an entry handed out +%lx", q.size, (u64)e - (u64)q.o); break; }
      case 1: { void *e = c.chance(1, 2) ? SPHMPMCQGetNextCompleteDirectSync(q.o) : SPHMPSCQGetNextCompleteDirect(q.o); CHECK(!e, "delivery", "a queue without entries delivers +%lx", (u64)e - (u64)q.o); break; }
      case 2: CHECK(SPHMPMCQIsFull(q.o), "full", "a queue without room for an entry is not full"); break;
      case 3: CHECK(SPHMPMCQIsEmpty(q.o), "empty", "a queue without room for an entry is not empty"); break;
      case 4: CHECK(SPHMPMCQGetEntries(q.o) == 0 && SPHMPMCQFreeSpace(q.o) == 0, "capacity", "%d entries, %lx bytes free", SPHMPMCQGetEntries(q.o), SPHMPMCQFreeSpace(q.o)); break;
      default: CHECK(SPHMPMCQResetAsync(q.o) == 0, "reset", "reset"); } }
    CHECK(check_fill(next, 4096, 7) < 0, "contents", "the neighbour of a queue changed"); SASBlockDealloc(next, 4096); }
  for (auto &q : v) CHECK(SPHMPMCQDestroy(q.o) == 0, "destroy", "destroy"); r0.load(); CHECK(RegionLists::sum(r0.used) == used0, "conservation", "%lx in use before, %lx after", used0, RegionLists::sum(r0.used)); if (n > 2) c.nontrivial();
}
#endif
#ifdef VERIF_SCHED
#include "sched_api.h"
// what is written into an entry: as much as the stride has room for
static void wr(u64 a, u64 stride, u64 id, u64 from) { for (u64 o = from; o + 8 <= stride; o += o + 16 < stride && o >= 32 ? stride - 16 - o + (stride & 7) : 8) { u64 v = id * 0x9E3779B97F4A7C15ull + o; *(u64 *)(a + o) = v; } }
static long rd(u64 a, u64 stride, u64 id, u64 from) { for (u64 o = from; o + 8 <= stride; o += o + 16 < stride && o >= 32 ? stride - 16 - o + (stride & 7) : 8) { u64 v = id * 0x9E3779B97F4A7C15ull + o; if (*(u64 *)(a + o) != v) return (long)o; } return -1; }
struct POp { int kind, spin, how, pause, ask; }; // what the producer does for one entry
struct COp { int how, free, pause, ask; };
PBT_TEST_X(E05, schedules, 4, 0, 20, 10) {
  sas_join(c); u64 slots = c.range(2, c.rarely(1, 3) ? 12 : 4), stride = (4096 - 256) / slots & ~15ull; if (c.rarely(1, 4)) stride = c.range(2, 12) * 16, slots = (4096 - 256) / stride; void *b = SASBlockAlloc(4096); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) memset(b, (int)c.below(256), 4096); void *q = SPHSinglePCQueueInitWithStride(b, 4096, (unsigned short)stride, SPHSPCQUEUE_CIRCULAR); CHECK(q == b, "create", "queue"); u64 cap = slots - 1;
  u64 skip = c.below(slots); for (u64 i = 0; i < skip; i++) { void *d = SPHSinglePCQueueAllocStrideDirect(q); CHECK(d, "alloc", "entry"); SPHLFEntryDirectComplete(d, SPHSinglePCQueueGetEntryTemplate(q), 1, 1); CHECK(SPHSinglePCQueueFreeNextEntry(q) == 1, "free", "free"); }
  u64 N = c.range(1, c.thorough ? 14 : 8), extra = c.chance(1, 2) ? 0 : std::min<u64>(std::min(cap, N - 1), c.below(4)); bool spins = c.chance(1, 2); std::vector<POp> pp; std::vector<COp> cp;
  for (u64 i = 0; i < N; i++) pp.push_back({(int)c.below(4), spins ? (int)c.below(3) : 0, (int)c.below(4), (int)c.below(3), (int)c.below(4)}), cp.push_back({(int)c.below(spins ? 5 : 3), (int)c.below(2), (int)c.below(3), (int)c.below(4)});
  c.log("queue of %lu slots of %lu bytes, starting at slot %lu, %lu entries", slots, stride, skip, N);
  // counters kept while no other thread runs: what has certainly begun, what is certainly over
  u64 produced = 0, compl0 = 0, compl1 = 0, freed0 = 0, freed1 = 0, got = 0, refused = 0; sphLFEntryID_t tmpl = SPHSinglePCQueueGetEntryTemplate(q); std::vector<std::function<void()>> fs;
  fs.push_back([&] { for (u64 i = 0; i < N; i++) { POp &o = pp[i]; u64 a = 0; SPHLFEntryHandle_t h;
    if (o.ask) { u64 f1; { sched::Quiet z; f1 = freed1; } if (o.ask == 1) { int f = SPHSinglePCQueueFull(q); sched::Quiet z; CHECK(f ? produced - f1 >= cap : produced - freed0 < cap, "full", "full %d with %lu..%lu of %lu entries outstanding", f, produced - freed0, produced - f1, cap); } else if (o.ask == 2) { u64 f = SPHSinglePCQueueFreeSpace(q); sched::Quiet z; CHECK(f >= (cap - (produced - f1)) * stride && f <= (cap - (produced - freed0)) * stride, "free-space", "free space %lu with %lu..%lu of %lu entries of %lu outstanding", f, produced - freed0, produced - f1, cap, stride); } }
    for (;;) { u64 f1; { sched::Quiet z; f1 = freed1; } bool spin = false;
      switch (o.kind) { case PLAIN: a = SPHSinglePCQueueAllocStrideEntry(q, (int)i + 1, o.how, &h) ? (u64)h.entry : 0; break; case STAMPED: a = SPHSinglePCQueueAllocStrideTimeStamped(q, (int)i + 1, o.how, &h) ? (u64)h.entry : 0; break;
        case DIRECT: spin = o.spin; a = (u64)(o.spin == 0 ? SPHSinglePCQueueAllocStrideDirect(q) : o.spin == 1 ? SPHSinglePCQueueAllocStrideDirectSpin(q) : SPHSinglePCQueueAllocStrideDirectSpinPause(q)); break; default: a = (u64)SPHSinglePCQueueAllocRaw(q); }
      { sched::Quiet z; CHECK(a || (!spin && produced - f1 >= cap), "alloc", "an entry is refused with %lu of %lu outstanding", produced - f1, cap); if (a) { CHECK(produced + 1 - freed0 <= cap, "alloc", "entry %lu is handed out with %lu of %lu outstanding", i, produced - freed0, cap); CHECK(a == (u64)q + 256 + (skip + i) % slots * stride, "place", "entry %lu at +%lx", i, a - (u64)q); produced++; c.log("entry %lu (kind %d)", i, o.kind); } else refused++; }
      if (a) break; sched::yield(); }
    u64 from = o.kind == STAMPED ? 16 : 8; wr(a, stride, i + 1, from); for (int k = 0; k < o.pause; k++) sched::yield(); { sched::Quiet z; compl0++; }
    if (o.kind >= DIRECT) CHECK(SPHLFEntryDirectComplete((void *)a, tmpl, (int)i + 1, o.how) == 1, "complete", "direct"); else switch (o.how) { case 0: CHECK(SPHSinglePCQueueEntryComplete(&h) == 1, "complete", "entry"); break; case 1: SPHLFEntryComplete(&h); break; case 2: SPHLFEntryStrongComplete(&h); break; default: SPHLFEntryWeakComplete(&h); }
    sched::Quiet z; compl1++; c.log("entry %lu complete", i); } });
  fs.push_back([&] { for (u64 i = 0; i + extra < N; i++) { COp &o = cp[i]; u64 a = 0; SPHLFEntryHandle_t h;
    if (o.ask == 1) { u64 k1; { sched::Quiet z; k1 = compl1; } int e = SPHSinglePCQueueEmpty(q); sched::Quiet z; CHECK(e ? k1 <= i : compl0 > i, "empty", "empty %d with %lu..%lu entries complete and %lu taken", e, k1, compl0, i); }
    if (o.ask == 2) { u64 e = (u64)SPHSinglePCQueueGetNextEntryDirect(q); sched::Quiet z; CHECK(!e || (produced + 1 > i && e == (u64)q + 256 + (skip + i) % slots * stride), "next", "next entry at %lx, taken %lu of %lu", e, i, produced); }
    if (o.ask == 3) { u64 k1; { sched::Quiet z; k1 = compl1; } if (k1 <= i) { int f = SPHSinglePCQueueFreeNextEntry(q); sched::Quiet z; if (f == 1) { CHECK(compl0 > i, "free", "an entry that is not complete was freed"); freed0++; freed1++; got++; c.log("entry %lu freed unseen", i); continue; } } }
    for (;;) { u64 k1; { sched::Quiet z; k1 = compl1; } bool spin = o.how >= 3; SPHLFEntryHandle_t *r;
      switch (o.how) { case 0: r = SPHSinglePCQueueGetNextComplete(q, &h); a = r ? (u64)h.entry : 0; break; case 1: case 2: a = (u64)SPHSinglePCQueueGetNextCompleteDirect(q); break; case 3: a = (u64)SPHSinglePCQueueGetNextCompleteDirectSpin(q); break; default: a = (u64)SPHSinglePCQueueGetNextCompleteDirectSpinPause(q); }
      { sched::Quiet z; CHECK(a || (!spin && k1 <= i), "delivery", "nothing is delivered with %lu complete and %lu taken", k1, i); if (a) CHECK(compl0 > i, "delivery", "entry %lu is delivered before it is complete", i); } if (a) break; sched::yield(); }
    CHECK(a == (u64)q + 256 + (skip + i) % slots * stride, "order", "entry %lu delivered at +%lx", i, a - (u64)q); SPHLFEntryHandle_t g; memset(&g, 0, sizeof g); g.entry = (SPHLFEntryHeader_t *)a; int cat, sub; u64 from; { sched::Quiet z; cat = SPHLFEntryCategory(&g); sub = SPHLFEntrySubcat(&g); from = SPHLFEntryIsTimestamped(&g) ? 16 : 8; CHECK((from == 16) == (pp[i].kind == STAMPED) && cat == (int)i + 1 && sub == pp[i].how, "contents", "header of entry %lu: %d/%d", i, cat, sub); }
    for (int k = 0; k <= o.pause; k++) { long d = rd(a, stride, i + 1, from); CHECK(d < 0, "contents", "entry %lu is wrong at +%ld", i, d); sched::yield(); }
    { sched::Quiet z; freed0++; } int f = o.free ? SPHSinglePCQueueFreeNextEntryDirect(q, (void *)a) : SPHSinglePCQueueFreeNextEntry(q); sched::Quiet z; CHECK(f == 1, "free", "free %d", f); freed1++; got++; c.log("entry %lu taken and freed", i); } });
  if (c.rarely(1, 3)) fs.push_back([&] { for (int i = 0; i < 6; i++) { SPHSinglePCQueueFull(q); SPHSinglePCQueueEmpty(q); u64 f = SPHSinglePCQueueFreeSpace(q); SPHSinglePCQueueGetStride(q); (void)f; sched::yield(); } });
  if (N - extra + cap < N) extra = 0; sched::run(c, fs);
  CHECK(produced == N && got == N - extra, "test", "counts"); { u64 left = 0; SPHLFEntryHandle_t h; while (SPHSinglePCQueueGetNextComplete(q, &h)) { u64 i = got + left, from = pp[i].kind == STAMPED ? 16 : 8; CHECK(left < extra, "delivery", "more entries than were produced"); CHECK((u64)h.entry == (u64)q + 256 + (skip + i) % slots * stride && rd((u64)h.entry, stride, i + 1, from) < 0, "contents", "entry %lu", i); CHECK(SPHSinglePCQueueFreeNextEntry(q) == 1, "free", "free"); left++; } CHECK(left == extra, "delivery", "%lu entries left, expected %lu", left, extra); CHECK(SPHSinglePCQueueEmpty(q) && !SPHSinglePCQueueFull(q) == (cap > 0) && SPHSinglePCQueueFreeSpace(q) == cap * stride, "empty", "the drained queue"); }
  c.count("entries", N); c.count("refused", refused); if (N > 2 && (refused || N > cap)) c.nontrivial();
}
// several producers and consumers
PBT_TEST_X(E07, schedules, 4, 0, 20, 10) {
  sas_join(c); u64 slots = c.range(1, c.rarely(1, 3) ? 12 : 4), stride = (4096 - 512) / slots & ~15ull; void *b = SASBlockAlloc(4096); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) memset(b, (int)c.below(256), 4096); void *q = SPHMPMCQInitWithStride(b, 4096, (unsigned short)stride, SPHSPCQUEUE_CIRCULAR); CHECK(q == b, "create", "queue"); slots = (u64)SPHMPMCQGetEntries(q);
  int P = (int)c.range(1, 3), C = (int)c.range(1, 3); bool usep = P == 1 && c.chance(1, 2), usec = C == 1 && c.chance(1, 2); std::vector<u64> np(P); u64 N = 0; for (auto &x : np) N += x = c.range(1, c.thorough ? 6 : 4); std::vector<int> pause, hold, batch; for (u64 i = 0; i < 16; i++) pause.push_back((int)c.below(3)), hold.push_back((int)c.below(3)), batch.push_back((int)c.below(5));
  u64 s0 = 0; { void *d = SPHSPMCQAllocStrideDirect(q); CHECK(d, "alloc", "first entry"); s0 = (u64)d; SPHLFEntryDirectComplete(d, SPHMPMCQGetEntryTemplate(q), 1, 1); CHECK(SPHMPSCQGetNextCompleteDirect(q) == d && SPHMPMCQFreeEntryDirect(q, d) == 1, "delivery", "first entry"); }
  c.log("queue of %lu slots of %lu bytes, %d producers (%s), %d consumers (%s), %lu entries", slots, stride, P, usep ? "unlocked" : "locked", C, usec ? "unlocked" : "locked", N); sphLFEntryID_t tmpl = SPHMPMCQGetEntryTemplate(q);
  struct Pos { u64 id, a0, a1, g0, g1; int who; bool done; }; std::vector<Pos> pos(N + 1); std::vector<u64> gen(slots, 0), cgen(slots, 0), last(P, 0); gen[0] = cgen[0] = 1; u64 next_id = 1, taken = 0, allocs0 = 0, open = 0, compl1 = 0, getting = 0, gets = 0, held = 0; std::vector<std::function<void()>> fs;
  for (int t = 0; t < P; t++) fs.push_back([&, t] { for (u64 i = 0; i < np[t]; i++) { u64 a, s, st; Pos *x;
    for (;;) { { sched::Quiet z; allocs0++; open++; st = sched::steps(); } u64 h0 = held; (void)h0; a = (u64)(usep ? SPHSPMCQAllocStrideDirect(q) : SPHMPMCQAllocStrideDirectSync(q)); sched::Quiet z; if (!a) { open--; } else { s = (a - s0) / stride; CHECK(a >= s0 && (a - s0) % stride == 0 && s < slots, "place", "entry at %lx", a - s0); u64 p = gen[s] * slots + s - 1; CHECK(p < N, "place", "slot %lu is handed out for the %luth time, with %lu entries in all", s, gen[s] + 1, N); CHECK(p < slots - 1 || cgen[s] == gen[s], "overlap", "slot %lu is handed out again before it was freed", s); gen[s]++; x = &pos[p]; x->id = next_id++; x->a0 = st; x->a1 = sched::steps(); x->who = t; c.log("producer %d: entry %lu in slot %lu", t, x->id, s); break; } sched::yield(); }
    u64 id; { sched::Quiet z; id = x->id; } wr(a, stride, id, 8); *(int *)(a + 4) = (int)id; for (int k = 0; k < pause[id % 16]; k++) sched::yield();
    CHECK(SPHLFEntryDirectComplete((void *)a, tmpl, (int)id, t) == 1, "complete", "direct"); sched::Quiet z; open--; compl1++; x->done = true; } });
  for (int t = 0; t < C; t++) fs.push_back([&, t] { std::vector<u64> mine; auto give = [&](u64 k) { u64 a = mine[k]; mine.erase(mine.begin() + k); u64 s = (a - s0) / stride; u64 id; { sched::Quiet z; id = pos[cgen[s] * slots + s - 1].id; } CHECK(rd(a, stride, id, 8) < 0, "contents", "entry %lu changed while it was held", id); { sched::Quiet z; cgen[s]++; held--; c.log("consumer %d frees entry %lu", t, id); } CHECK(SPHMPMCQFreeEntryDirect(q, (void *)a) == 1, "free", "free"); };
    for (;;) { { sched::Quiet z; if (taken >= N) break; } u64 k1, al, g0, st; bool alone; { sched::Quiet z; k1 = compl1 - taken; al = allocs0; alone = !open && !getting; getting++; g0 = ++gets; st = sched::steps(); }
      u64 a = (u64)(usec ? SPHMPSCQGetNextCompleteDirect(q) : SPHMPMCQGetNextCompleteDirectSync(q));
      { sched::Quiet z; getting--; if (!a) CHECK(!(alone && k1 && al == allocs0 && g0 == gets), "delivery", "nothing is delivered with %lu complete entries", k1); else { u64 s = (a - s0) / stride; CHECK(a >= s0 && (a - s0) % stride == 0 && s < slots, "delivery", "delivered %lx", a - s0); u64 p = cgen[s] * slots + s - 1; CHECK(p < N && gen[s] == cgen[s] + 1 && pos[p].id && !pos[p].g1, "delivery", "slot %lu is delivered twice or before it was allocated", s); taken++; held++; pos[p].g0 = st; pos[p].g1 = sched::steps(); c.log("consumer %d gets entry %lu in slot %lu", t, pos[p].id, s); int cat = SPHLFEntryDirectCategory((void *)a), sub = SPHLFEntryDirectSubcat((void *)a); CHECK(cat == (int)pos[p].id && sub == pos[p].who, "contents", "header of entry %lu: %d/%d", pos[p].id, cat, sub); } }
      if (a) { u64 s = (a - s0) / stride, id; { sched::Quiet z; id = pos[cgen[s] * slots + s - 1].id; } CHECK(*(int *)(a + 4) == (int)id && rd(a, stride, id, 8) < 0, "contents", "entry %lu is delivered incomplete", id); mine.push_back(a); for (int k = 0; k < hold[id % 16]; k++) sched::yield(); if ((u64)batch[id % 16] < 2) continue; }
      else sched::yield();
      while (!mine.empty() && (mine.size() > 2 || !a || batch[(gets + mine.size()) % 16])) { give(batch[gets % 16] % mine.size()); } }
    while (!mine.empty()) give(mine.size() - 1); });
  sched::run(c, fs); CHECK(taken == N && compl1 == N, "delivery", "%lu of %lu entries", taken, N);
  for (u64 i = 0; i < N; i++) { CHECK(pos[i].id && pos[i].g1, "delivery", "position %lu", i); for (u64 j = i + 1; j < N; j++) { CHECK(!(pos[j].a1 < pos[i].a0), "order", "entry %lu was allocated before entry %lu but comes after it", pos[j].id, pos[i].id); CHECK(!(pos[j].g1 < pos[i].g0), "order", "entry %lu was delivered before entry %lu, which is older", pos[j].id, pos[i].id); } }
  CHECK(SPHMPMCQIsEmpty(q) && !SPHMPMCQIsFull(q) && SPHMPMCQFreeSpace(q) == slots * stride, "empty", "the drained queue is not empty"); for (u64 i = 0; i <= slots; i++) { void *d = SPHMPMCQAllocStrideDirectSync(q); CHECK((d != nullptr) == (i < slots), "capacity", "entry %lu of %lu after the run", i, slots); }
  c.count("entries", N); if (N > 2 && P + C > 2) c.nontrivial();
}
#endif
