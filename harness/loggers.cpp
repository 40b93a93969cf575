// E01: loggers against a model of their entries; E06: portals against a list of such models
#include "sas.h"
#include <deque>
using namespace pbt;
static u64 up(u64 a) { return (a + 15) & ~15ull; }
struct Ent { u64 at, len, id; int cat, sub; bool stamped, done, raw; u64 t0, t1; };
struct Log {
  SPHLFLogger_t o; u64 size, s, e, stride; bool circ; u64 pos, k; std::deque<Ent> v; // v: entries held, oldest first; k: entries of this life
  u64 room() const { return e - s; } u64 slots() const { return stride ? room() / stride : 0; }
  void fresh() { pos = s; k = 0; v.clear(); }
  static bool holds(const Log &l, u64 data) { u64 m = std::min<u64>(l.room(), 255 * 16); return data <= m - 16; }
};
static u64 ids;
static void body(Ent &x) { u64 h = x.stamped ? 16 : 4; fill((void *)(x.at + h), x.len - h, x.id); }
static void intact(Case &c, const Ent &x) { u64 h = x.stamped ? 16 : 4; long d = check_fill((void *)(x.at + h), x.len - h, x.id); CHECK(d < 0, "contents", "entry %lu at %lx+%lx changed at +%lx", x.id, x.at, x.len, d + h); }
static void init(Log &l, SPHLFLogger_t o, u64 size, u64 stride, bool circ) { l.o = o; l.size = size; l.s = (u64)o + 256; l.e = (u64)o + size; l.stride = up(stride) & 0xffff; l.circ = circ; l.fresh(); }
static Log make(Case &c, int how, u64 size, u64 stride) {
  Log l; SPHLFLogger_t o = nullptr; bool circ = false; void *b = nullptr; if (how < 3) { b = SASBlockAlloc(size); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) fill(b, size, c.below(50)); }
  switch (how) { case 0: o = SPHLFLoggerInit(b, size); stride = 0; break; case 1: o = SPHLFLoggerInitWithStride(b, size, (unsigned short)stride, 0); break; case 2: o = SPHLFLoggerInitWithStride(b, size, (unsigned short)stride, SPHLFLOGGER_CIRCULAR); circ = true; break; case 3: o = SPHLFLoggerCreate(size); stride = 0; break; default: o = SPHLFCircularLoggerCreate(size, (unsigned short)stride); circ = true; }
  CHECK(o && (!b || o == b), "create", "logger %p", o); init(l, o, size, stride, circ); c.log("%slogger of %lx, stride %lu -> %p", circ ? "circular " : "", size, l.stride, o); return l;
}
static void reports(Case &c, Log &l) {
  u64 fs = SPHLFLoggerFreeSpace(l.o); int em = SPHLFLoggerEmpty(l.o), fu = SPHLFLoggerFull(l.o), wr = SPHLFLoggerWrapped(l.o); u64 left = l.pos < l.e ? l.e - l.pos : 0;
  CHECK(fs == left, "free-space", "free space %lx, expected %lx", fs, left); CHECK(!!em == (l.pos == l.s), "empty", "empty %d with %lx of %lx used", em, l.pos - l.s, l.room()); CHECK(!!fu == !left, "full", "full %d with %lx left", fu, left); CHECK(!!wr == (l.circ && l.k > l.slots() && l.slots()), "wrapped", "wrapped %d after %lu entries in %lu slots", wr, l.k, l.slots());
}
// what the model says of an allocation of len bytes in all
static bool fits(Log &l, u64 len) { return l.pos <= l.e && len <= l.e - l.pos; }
static Ent *placed(Case &c, Log &l, u64 at, u64 len) { // an allocation was successful
  if (l.circ && l.pos + len > l.e) { l.pos = l.s; }
  CHECK(at == l.pos, "place", "entry at +%lx, expected +%lx", at - l.s, l.pos - l.s); CHECK(at >= l.s && at + len <= l.e, "bounds", "entry %lx+%lx outside %lx..%lx", at, len, l.s, l.e); l.pos = at + len; l.k++;
  if (l.circ) { if (l.k > l.slots()) { CHECK(!l.v.empty() && l.v[0].at == at, "test", "model"); l.v.pop_front(); } }
  else for (auto &x : l.v) CHECK(at >= x.at + x.len || x.at >= at + len, "overlap", "entry %lx+%lx overlaps %lx+%lx", at, len, x.at, x.len);
  Ent n; memset(&n, 0, sizeof n); n.at = at; n.len = len; n.id = ++ids; l.v.push_back(n); return &l.v.back(); }
static void refused(Case &c, Log &l, bool effect) { u64 fs = SPHLFLoggerFreeSpace(l.o), left = l.pos < l.e ? l.e - l.pos : 0; CHECK(effect ? fs <= left : fs == left, "refused", "free space went from %lx to %lx by a refused allocation", left, fs); l.pos = fs ? l.e - fs : l.pos > l.e ? l.pos : l.e; }
// the data of an allocation by handle
static void take(Case &c, Ent *x, SPHLFLoggerHandle_t *r, SPHLFLoggerHandle_t &h, int cat, int sub, u64 t0) {
  CHECK(r == &h, "handle", "handle %p", r); x->cat = cat & 0xfff; x->sub = sub & 0xff; x->stamped = true; x->t0 = t0; x->t1 = sphgettimer(); CHECK(h.total_size == x->len && h.remaining == x->len - 16 && h.next == (char *)x->at + 16, "handle", "entry of %lx: handle %u bytes, %u left, next +%ld", x->len, h.total_size, h.remaining, (long)(h.next - (char *)x->at)); CHECK(!SPHLFLoggerEntryIsComplete(&h) && !SPHLFLoggerEntryIsTimestamped(&h), "status", "a new entry is complete"); body(*x); }
static void finish(Case &c, Ent &x) { SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)x.at; int how = (int)c.below(4); if (!x.stamped) how = 0; int rc = how == 0 ? SPHLFLoggerEntryComplete(&h) : how == 1 ? SPHLFLogEntryComplete(&h) : how == 2 ? SPHLFLogEntryWeakComplete(&h) : SPHLFLogEntryStrongComplete(&h); CHECK(rc == 0 && SPHLFLoggerEntryIsComplete(&h) && !!SPHLFLoggerEntryIsTimestamped(&h) == x.stamped, "complete", "complete"); x.done = true; }
static void alloc(Case &c, Log &l) {
  SPHLFLoggerHandle_t h; memset(&h, 0xee, sizeof h); int cat = (int)c.below(5000) - 200, sub = (int)c.below(600) - 100; u64 t0 = sphgettimer(); int k = (int)c.below(4);
  if (k >= 2 && l.circ) k -= 2; if (k < 2 && !l.circ && !l.stride && c.chance(5, 6)) k += 2;
  if (k < 2) { SPHLFLoggerHandle_t *r = k ? SPHLFLoggerAllocStrideTimeStampedNoLock(l.o, cat, sub, &h) : SPHLFLoggerAllocStrideTimeStamped(l.o, cat, sub, &h); bool ok = l.stride >= 16 && Log::holds(l, l.stride - 16); c.log("stride entry -> %lx", r ? (u64)h.entry - l.s : 0); if (!ok) { CHECK(!r, "stride", "an entry of stride %lu", l.stride); refused(c, l, false); return; } bool f = l.circ || fits(l, l.stride); CHECK((r != nullptr) == f, "full", "stride entry with %ld left: %p", (long)(l.e - l.pos), r); if (!r) { refused(c, l, true); return; } take(c, placed(c, l, (u64)h.entry, l.stride), r, h, cat, sub, t0); if (c.chance(4, 5)) finish(c, l.v.back()); }
  else { u64 left = l.pos < l.e ? l.e - l.pos : 0, n; switch (c.below(6)) { case 0: n = c.below(l.room() + 40); break; case 1: n = left > 16 ? left - 16 - (c.chance(1, 2) ? c.below(20) : 0) : c.below(100); n = (n > left) ? left : n; break; case 2: n = 4040 + c.below(60); break; case 3: n = c.rarely(1, 4) ? c.bits64() : c.below(300); break; default: n = c.below(120); }
    bool ok = Log::holds(l, n); u64 len = ok ? up(n) + 16 : 0; if (ok && !Log::holds(l, len - 16)) { ok = false; } // (rounding up never passes the limits: both are multiples of 16)
    SPHLFLoggerHandle_t *r = k == 2 ? SPHLFLoggerAllocTimeStamped(l.o, cat, sub, n, &h) : SPHLFLoggerAllocTimeStampedNoLock(l.o, cat, sub, n, &h); c.log("entry of %lu -> %lx", n, r ? (u64)h.entry - l.s : 0); if (!ok) { CHECK(!r, "too-large", "an entry of %lu bytes", n); refused(c, l, false); return; } bool f = fits(l, len); CHECK((r != nullptr) == f, "full", "entry of %lu with %ld left: %p", n, (long)(l.e - l.pos), r); if (!r) { refused(c, l, true); return; } take(c, placed(c, l, (u64)h.entry, len), r, h, cat, sub, t0); if (c.chance(4, 5)) finish(c, l.v.back()); }
}
static void raw_header(Ent *x) { sphLogEntry_t w; memset(&w, 0, sizeof w); w.detail.len = x->len / 16; w.detail.category = x->cat = (int)(x->id & 0xfff); w.detail.subcat = x->sub = (int)(x->id >> 3 & 0xff); ((SPHLFLogHeader_t *)x->at)->entryID = w; x->raw = true; body(*x); }
static void raw(Case &c, Log &l) { if (l.circ) return; u64 left = l.pos < l.e ? l.e - l.pos : 0, n = c.rarely(1, 3) ? c.range(1, l.room() + 100) : c.chance(1, 4) && left ? left : c.range(1, 300); if (n > 4080 && n <= l.room()) n = 4080; u64 len = up(n); void *p = SPHLFLoggerAllocRaw(l.o, n); c.log("raw entry of %lu -> %lx", n, p ? (u64)p - l.s : 0); if (n > l.room()) { CHECK(!p, "too-large", "raw entry of %lu", n); refused(c, l, false); return; } CHECK((p != nullptr) == fits(l, len), "full", "raw entry of %lu with %ld left: %p", n, (long)(l.e - l.pos), p); if (!p) { refused(c, l, true); return; } Ent *x = placed(c, l, (u64)p, len); raw_header(x); if (c.chance(4, 5)) finish(c, *x); }
static void same_entry(Case &c, const Ent &x, SPHLFLoggerHandle_t &h, u64 &last, bool samep) {
  CHECK((u64)h.entry == x.at && h.total_size == x.len && h.next == (char *)x.at + (x.stamped ? 16 : 4) && h.remaining == x.len - (x.stamped ? 16 : 4), "delivery", "delivered %p of %u bytes (+%ld, %u left), expected entry %lu at %lx of %lu", h.entry, h.total_size, (long)(h.next - (char *)h.entry), h.remaining, x.id, x.at, x.len);
  CHECK(SPHLFLogEntryCategory(&h) == x.cat && SPHLFLogEntrySubcat(&h) == x.sub, "category", "category %d/%d, expected %d/%d", SPHLFLogEntryCategory(&h), SPHLFLogEntrySubcat(&h), x.cat, x.sub);
  if (x.stamped) { u64 t = SPHLFLogEntryTimeStamp(&h); CHECK(t >= x.t0 && t <= x.t1 && t >= last, "stamp", "time stamp %lx, expected %lx..%lx after %lx", t, x.t0, x.t1, last); last = t; if (samep) CHECK(SPHLFLogEntryPID(&h) == (getpid() & 0xffff) && SPHLFLogEntryTID(&h) == (gettid() & 0xffff), "writer", "writer %d/%d", SPHLFLogEntryPID(&h), SPHLFLogEntryTID(&h)); } else CHECK(!SPHLFLogEntryTimeStamp(&h) && !SPHLFLogEntryPID(&h) && !SPHLFLogEntryTID(&h), "stamp", "an entry without a stamp");
  intact(c, x); }
static void iterate(Case &c, Log &l, bool samep) { SPHLFLogIterator_t it; memset(&it, 0xee, sizeof it); CHECK(SPHLFLoggerCreateIterator(l.o, &it) == &it, "iterator", "no iterator"); u64 last = 0, i = 0; for (;; i++) { SPHLFLoggerHandle_t h; SPHLFLoggerHandle_t *r = SPHLFLoggerIteratorNext(&it, &h); bool more = i < l.v.size() && l.v[i].done; CHECK((r != nullptr) == more, "delivery", "%s after %lu of %zu entries%s", r ? "an entry is delivered" : "nothing is delivered", i, l.v.size(), i < l.v.size() && !l.v[i].done ? " (the next is incomplete)" : ""); if (!r) break; same_entry(c, l.v[i], h, last, samep); } for (int z = 0; z < 2; z++) { SPHLFLoggerHandle_t h; CHECK(!SPHLFLoggerIteratorNext(&it, &h), "delivery", "delivery after the end"); } for (; i < l.v.size(); i++) intact(c, l.v[i]); }
struct Iter { SPHLFLogIterator_t it; u64 next, upto, last; };
PBT_TEST(E01, histories, 5) {
  sas_join(c); ids = c.below(100); RegionLists r0; r0.load(); u64 used0 = RegionLists::sum(r0.used); int how = (int)c.below(5); u64 size = 4096ull << c.below(c.rarely(1, 4) ? 8 : 3), stride = c.rarely(1, 8) ? c.below(65536) : c.rarely(1, 6) ? c.below(20) : c.range(16, 900); Log l = make(c, how, size, stride); std::vector<Iter> its; u64 n = c.range(4, c.thorough ? 500 : 150), total = 0, iters = 0;
  if (c.rarely(1, 3)) n = std::min<u64>(l.slots() * 2 + 20, 3000); u64 quiet = c.chance(1, 2) ? 0 : c.below(20);
  for (u64 i = 0; i < n; i++) {
    int k = (int)c.below(24); if (quiet && c.below(quiet)) k = 0;
    switch (k) {
      default: { u64 b = l.k; alloc(c, l); if (l.k > b && l.circ && l.k > l.slots()) its.clear(); if (l.k > b) total++; break; }
      case 14: case 15: { u64 b = l.k; raw(c, l); total += l.k - b; break; }
      case 16: { std::vector<Ent *> p; for (auto &x : l.v) if (!x.done) p.push_back(&x); if (!p.empty()) { Ent *x = p[c.below(p.size())]; finish(c, *x); c.log("completed entry %lu", x->id); } break; }
      case 17: iterate(c, l, true); iters++; break;
      case 18: { if (its.size() < 4 && !(l.circ && l.k > l.slots())) { Iter x; CHECK(SPHLFLoggerCreateIterator(l.o, &x.it) == &x.it, "iterator", "none"); x.next = 0; x.upto = l.v.size(); x.last = 0; its.push_back(x); c.log("iterator over %zu", l.v.size()); } break; }
      case 19: case 20: if (!its.empty()) { Iter &x = its[c.below(its.size())]; SPHLFLoggerHandle_t h; SPHLFLoggerHandle_t *r = SPHLFLoggerIteratorNext(&x.it, &h); bool more = x.next < l.v.size() && l.v[x.next].done; if (x.next < x.upto) CHECK((r != nullptr) == more, "delivery", "an open iterator at entry %lu of %lu delivers %p", x.next, x.upto, r); else CHECK(!r || more, "delivery", "an open iterator delivers beyond the last entry"); if (r) same_entry(c, l.v[x.next], h, x.last, true), x.next++; } break;
      case 21: { if (c.chance(1, 2)) { int p = (int)c.below(6) - 1; CHECK(SPHLFLoggerSetCachePrefetch(l.o, p) == 0, "prefetch", "option %d", p); c.log("prefetch option %d", p); } else CHECK(SPHLFLoggerPrefetch(l.o) == 0, "prefetch", "prefetch"); break; }
      case 22: if (c.rarely(1, 2)) { u64 left = l.pos < l.e ? l.e - l.pos : 0; int rc = SPHLFLoggerResetIfFullSync(l.o); c.log("reset if full (%lx left): %d", left, rc); if (!left) CHECK(rc == 0, "reset", "a full logger is not reset: %d", rc); if (left > 128) CHECK(rc == 1, "reset", "a logger with %lx left is reset: %d", left, rc); CHECK(rc == 0 || rc == 1, "reset", "%d", rc); if (rc == 0) { l.fresh(); its.clear(); } } break;
      case 23: if (c.rarely(1, 4)) { if (c.chance(1, 2)) { CHECK(SPHLFLoggerResetAsync(l.o) == 0, "reset", "reset"); l.fresh(); its.clear(); c.log("reset"); } else { int h2 = (int)c.below(3); u64 st = c.chance(1, 2) ? l.stride : c.range(16, 900); SPHLFLogger_t o = h2 == 0 ? SPHLFLoggerInit((void *)l.o, size) : SPHLFLoggerInitWithStride((void *)l.o, size, (unsigned short)st, h2 == 2 ? SPHLFLOGGER_CIRCULAR : 0); CHECK(o == l.o, "create", "init"); init(l, o, size, h2 ? st : 0, h2 == 2); its.clear(); c.log("made a %slogger again, stride %lu", h2 == 2 ? "circular " : "", l.stride); } } break;
    }
    if (c.chance(1, 3)) reports(c, l); }
  reports(c, l); iterate(c, l, true); for (auto &x : l.v) intact(c, x);
  if (c.rarely(1, 12)) { SASCleanUp(); c.child([&] { sas_join(c); reports(c, l); iterate(c, l, false); SASCleanUp(); }); sas_join(c); }
  CHECK(SPHLFLoggerDestroy(l.o) == 0, "destroy", "destroy"); r0.load(); CHECK(RegionLists::sum(r0.used) == used0, "conservation", "%lx in use before, %lx after", used0, RegionLists::sum(r0.used)); { SASSimpleHeap_t sh = SASSimpleHeapCreate(4096); for (void *z : {(void *)l.o, (void *)sh}) { SPHLFLoggerHandle_t h; SPHLFLogIterator_t it; memset(&h, 0, sizeof h); CHECK(!SPHLFLoggerAllocRaw(z, 16) && !SPHLFLoggerAllocTimeStamped(z, 1, 1, 8, &h) && !SPHLFLoggerAllocStrideTimeStamped(z, 1, 1, &h) && !SPHLFLoggerAllocTimeStampedNoLock(z, 1, 1, 8, &h) && !SPHLFLoggerAllocStrideTimeStampedNoLock(z, 1, 1, &h) && !SPHLFLoggerCreateIterator(z, &it), "type", "what is not a logger is used for entries"); CHECK(SPHLFLoggerFreeSpace(z) == 0 && SPHLFLoggerFull(z) && SPHLFLoggerResetAsync(z) && SPHLFLoggerResetIfFullSync(z) && SPHLFLoggerPrefetch(z) && SPHLFLoggerSetCachePrefetch(z, 1) && SPHLFLoggerDestroy(z), "type", "what is not a logger is used as one"); } SASSimpleHeapDestroy(sh); }
  c.count("entries", total); if (total > 10) c.nontrivial();
}
// a portal is a list of loggers, filled one after the other
PBT_TEST(E06, histories, 4) {
  sas_join(c); ids = 0; RegionLists r0; r0.load(); u64 used0 = RegionLists::sum(r0.used); u64 psize = 4096ull << c.below(3); void *b = nullptr; SPHLogPortal_t p; if (c.chance(1, 2)) { b = SASBlockAlloc(psize); if (c.chance(1, 2)) fill(b, psize, 3); p = SPHLogPortalInit(b, psize); } else p = SPHLogPortalCreate(psize); CHECK(p && (!b || b == p), "create", "portal"); int cap = SPHLogPortalCapacity(p); CHECK(cap >= 1 && (u64)cap <= psize / 8, "capacity", "%d loggers in a portal of %lx", cap, psize); c.log("portal of %lx for %d loggers", psize, cap);
  std::deque<Log> ls; std::vector<int> list; u64 cur = 0, total = 0; u64 n = c.range(5, c.thorough ? 400 : 120); bool full = c.rarely(1, 8); std::set<u64> others;
  auto add = [&](int i) { SPHLFLogger_t r = SPHLogPortalAddLogger(p, ls[i].o); bool room = (int)list.size() < cap; CHECK(r == (room ? ls[i].o : nullptr), "add", "adding logger %zu of %d: %p", list.size(), cap, r); if (room) list.push_back(i); c.log("logger %d added%s", i, room ? "" : ": refused"); };
  auto state = [&] { CHECK(SPHLogPortalEntries(p) == (int)list.size(), "entries", "%d loggers, expected %zu", SPHLogPortalEntries(p), list.size()); CHECK(!!SPHLogPortalEmpty(p) == list.empty(), "empty", "empty %d with %zu loggers", SPHLogPortalEmpty(p), list.size()); CHECK(SPHLogPortalCapacity(p) == cap, "capacity", "changed"); CHECK(SPHLogPortalGetCurrentLogger(p) == (list.empty() ? nullptr : ls[list[cur]].o), "current", "current logger %p", SPHLogPortalGetCurrentLogger(p)); CHECK(SPHLogPortalGetCurrentIndex(p) == (list.empty() ? -1 : (int)cur), "current", "current index %d, expected %lu", SPHLogPortalGetCurrentIndex(p), cur); u64 i = c.rarely(1, 4) ? c.bits64() : c.below(list.size() + 3); CHECK(SPHLogPortalGetLoggerByIndex(p, i) == (i < list.size() ? ls[list[i]].o : nullptr), "index", "logger %lu of %zu is %p", i, list.size(), SPHLogPortalGetLoggerByIndex(p, i)); };
  auto iter = [&] { SPHLFPortalIterator_t it; memset(&it, 0xee, sizeof it); SPHLFPortalIterator_t *x = SPHLFPortalCreateIterator(p, &it); CHECK(x == (list.empty() ? nullptr : &it), "iterator", "iterator %p over %zu loggers", x, list.size()); if (!x) return; for (size_t j = 0; j < list.size(); j++) { Log &l = ls[list[j]]; u64 last = 0; for (size_t i = 0; i < l.v.size() && l.v[i].done; i++) { SPHLFLoggerHandle_t h; CHECK(SPHLFPortalIteratorNext(x, &h) == &h, "delivery", "nothing delivered at entry %zu of logger %zu", i, j); same_entry(c, l.v[i], h, last, true); } } SPHLFLoggerHandle_t h; for (int z = 0; z < 2; z++) CHECK(!SPHLFPortalIteratorNext(x, &h), "delivery", "delivery after the end"); };
  auto create = [&] { int how = (int)c.below(5); if (how >= 2 && c.chance(4, 5)) how = how == 2 ? 1 : how == 4 ? 3 : how; ls.push_back(make(c, how, 4096ull << c.below(2), c.rarely(1, 8) ? c.below(9000) : c.range(16, 900))); };
  state();
  if (full) { create(); for (int i = 0; i < cap + 2; i++) { if (ls.size() < 40 && c.rarely(1, 4)) create(); add((int)c.below(ls.size())); } state(); bool dup = false; (void)dup; }
  for (u64 i = 0; i < n; i++) {
    int k = (int)c.below(16);
    // the same logger in the list twice would make the model of its iteration ambiguous only for the order, not here
    if (k == 0 || list.empty()) { if (full) { if (!ls.empty()) add((int)c.below(ls.size())); } else if (ls.size() < 30) { create(); if (c.rarely(1, 5)) alloc(c, ls.back()); if (c.chance(5, 6)) add((int)ls.size() - 1); } }
    else if (k == 1) { SASSimpleHeap_t h = SASSimpleHeapCreate(4096); CHECK(!SPHLogPortalAddLogger(p, (SPHLFLogger_t)h), "add", "a heap was added"); SASSimpleHeapDestroy(h); CHECK(!SPHLogPortalAddLogger(p, p), "add", "the portal was added to itself"); }
    else if (k == 2) iter();
    else if (k == 3) { std::vector<Ent *> q; for (auto &l : ls) for (auto &x : l.v) if (!x.done) q.push_back(&x); if (!q.empty()) finish(c, *q[c.below(q.size())]); }
    else if (k == 4 && c.rarely(1, 2)) { Log &l = ls[c.below(ls.size())]; alloc(c, l); }
    else { // an entry of the portal
      SPHLFLoggerHandle_t h; memset(&h, 0xee, sizeof h); int kind = (int)c.below(3), cat = (int)c.below(4096), sub = (int)c.below(256); u64 nb = c.rarely(1, 6) ? c.below(4400) : c.below(500), t0 = sphgettimer(); if (kind == 2 && nb == 0) nb = 1; if (kind == 2) { bool circ = false; for (size_t j = cur; j < list.size(); j++) circ |= ls[list[j]].circ; if (circ) kind = 0; } if (kind == 1) { bool circ = false; for (size_t j = cur; j < list.size(); j++) circ |= ls[list[j]].circ; if (circ) kind = 0; } if (kind == 2 && nb > 4080) nb = 4080;
      void *r = kind == 0 ? (void *)SPHLogPortalAllocStrideTimeStamped(p, cat, sub, &h) : kind == 1 ? (void *)SPHLogPortalAllocTimeStamped(p, cat, sub, nb, &h) : SPHLogPortalAllocRaw(p, nb); int now = SPHLogPortalGetCurrentIndex(p); c.log("portal entry (kind %d, %lu) -> %p, current %d", kind, nb, r, now); CHECK(now >= (int)cur && now < (int)list.size(), "current", "current went from %lu to %d of %zu", cur, now, list.size());
      auto can = [&](Log &l, u64 &len) { if (kind == 0) { len = l.stride; return l.stride >= 16 && Log::holds(l, l.stride - 16) && (l.circ || fits(l, len)); } if (kind == 1) { len = up(nb) + 16; return Log::holds(l, nb) && fits(l, len); } len = up(nb); return nb <= l.room() && fits(l, len); };
      auto legal = [&](Log &l) { return kind == 0 ? l.stride >= 16 && Log::holds(l, l.stride - 16) : kind == 1 ? Log::holds(l, nb) : nb <= l.room(); };
      for (int j = (int)cur; j < now; j++) { Log &l = ls[list[j]]; u64 len; CHECK(!can(l, len), "skipped", "logger %d could take the entry but the portal moved on", j); CHECK(SPHLFLoggerFull(l.o), "skipped", "the portal moved on from logger %d, which is not full", j); refused(c, l, legal(l)); } cur = (u64)now; Log &l = ls[list[cur]]; u64 len; bool ok = can(l, len);
      if (!r) { CHECK(!ok, "refused", "logger %d has room for the entry", now); bool next = cur + 1 < list.size(); refused(c, l, legal(l)); CHECK(!(next && SPHLFLoggerFull(l.o)), "refused", "logger %lu is full and logger %lu was not tried", cur, cur + 1); }
      else { CHECK(ok, "alloc", "logger %d has no room for the entry at %p", now, kind == 2 ? r : h.entry); u64 at = kind == 2 ? (u64)r : (u64)h.entry; Ent *x = placed(c, l, at, len); if (kind == 2) raw_header(x); else take(c, x, (SPHLFLoggerHandle_t *)r, h, cat, sub, t0); if (c.chance(4, 5)) finish(c, *x); total++; } }
    if (c.chance(1, 3)) { state(); if (!ls.empty()) reports(c, ls[c.below(ls.size())]); } }
  state(); iter(); for (auto &l : ls) { reports(c, l); iterate(c, l, true); }
  CHECK(SPHLogPortalDestroy(p) == 0, "destroy", "portal"); CHECK(SPHLogPortalDestroy(p) != 0 && !SPHLogPortalGetCurrentLogger(p), "destroy", "a destroyed portal is used"); for (auto &l : ls) { iterate(c, l, true); CHECK(SPHLFLoggerDestroy(l.o) == 0, "destroy", "logger"); } r0.load(); CHECK(RegionLists::sum(r0.used) == used0, "conservation", "%lx in use before, %lx after", used0, RegionLists::sum(r0.used));
  c.count("entries", total); if (total > 5 && list.size() > 1) c.nontrivial();
}
