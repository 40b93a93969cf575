// E03: values in log and queue entries against the bytes of the entry
#include "sas.h"
using namespace pbt;
// one function table per kind of entry, so that the same generator drives both headers
struct Fns {
  const char *name; int kind;
  int (*add)(void *h, int t, const void *v); u64 (*get)(void *h, int t); void *(*alloc)(void *h, u64 n, u64 al); void *(*sptr)(void *h, u64 n, u64 al); void *(*freeptr)(void *h); char *(*gets)(void *h); int (*adds)(void *h, const char *s);
  int (*complete)(void *h, int how); int (*iscomplete)(void *h); int (*isstamped)(void *h); u64 (*stamp)(void *h); int (*pid)(void *h); int (*tid)(void *h); int (*cat)(void *h); int (*sub)(void *h); void *(*header)(void *h);
};
enum { CHAR, SHORT, INT, LONG, LLONG, PTR, FLOAT, DOUBLE, NT };
static const u64 SZ[NT] = {1, 2, 4, 8, 8, 8, 4, 8}; static const char *TN[NT] = {"char", "short", "int", "long", "long long", "pointer", "float", "double"};
template <class T> static u64 bits(T v) { u64 r = 0; memcpy(&r, &v, sizeof v); return r; }
#define V(T) (*(T const *)v)
#define TABLE(FN, H, A, O, COMPLETE, KIND) static Fns FN = {#H, KIND, \
  [](void *h, int t, const void *v) { H *x = (H *)h; switch (t) { case CHAR: return A##AddChar(x, V(char)); case SHORT: return A##AddShort(x, V(short)); case INT: return A##AddInt(x, V(int)); case LONG: return A##AddLong(x, V(long)); case LLONG: return A##AddLongLong(x, V(long long)); case PTR: return A##AddPtr(x, V(void *)); case FLOAT: return A##AddFloat(x, V(float)); default: return A##AddDouble(x, V(double)); } }, \
  [](void *h, int t) -> u64 { H *x = (H *)h; switch (t) { case CHAR: return bits(A##GetNextChar(x)); case SHORT: return bits(A##GetNextShort(x)); case INT: return bits(A##GetNextInt(x)); case LONG: return bits(A##GetNextLong(x)); case LLONG: return bits(A##GetNextLongLong(x)); case PTR: return bits(A##GetNextPtr(x)); case FLOAT: return bits(A##GetNextFloat(x)); default: return bits(A##GetNextDouble(x)); } }, \
  [](void *h, u64 n, u64 al) { return A##AllocStruct((H *)h, n, al); }, [](void *h, u64 n, u64 al) { return A##GetStructPtr((H *)h, n, al); }, [](void *h) -> void * { return O##GetFreePtr((H *)h); }, [](void *h) { return A##GetNextString((H *)h); }, [](void *h, const char *s) { return A##AddString((H *)h, s); }, \
  [](void *h, int how) { H *x = (H *)h; (void)x; COMPLETE }, [](void *h) { return O##IsComplete((H *)h); }, [](void *h) { return O##IsTimestamped((H *)h); }, [](void *h) -> u64 { return O##TimeStamp((H *)h); }, [](void *h) -> int { return O##PID((H *)h); }, [](void *h) -> int { return O##TID((H *)h); }, [](void *h) { return O##Category((H *)h); }, [](void *h) { return O##Subcat((H *)h); }, [](void *h) -> void * { return O##Header((H *)h); }}
TABLE(LOGE, SPHLFLoggerHandle_t, SPHLFlogEntry, SPHLFLogEntry, switch (how) { case 0: return (int)!SPHLFLogEntryComplete(x); case 1: return (int)!SPHLFLoggerEntryComplete(x); case 2: return (int)!SPHLFLogEntryWeakComplete(x); default: return (int)!SPHLFLogEntryStrongComplete(x); }, 0);
TABLE(QUE, SPHLFEntryHandle_t, SPHLFEntry, SPHLFEntry, switch (how) { case 0: return (int)!SPHLFEntryComplete(x); case 1: return SPHSinglePCQueueEntryComplete(x); case 2: return (int)!SPHLFEntryWeakComplete(x); default: return (int)!SPHLFEntryStrongComplete(x); }, 1);
struct Hd { void *entry; char *next; unsigned short total, rem; }; // both handles
static_assert(sizeof(Hd) == sizeof(SPHLFLoggerHandle_t) && sizeof(Hd) == sizeof(SPHLFEntryHandle_t), "handle");

struct Put { int t; u64 off, n, al; u64 v; std::string s; }; // t: a type, or NT string, NT+1 structure
static u64 up(u64 a, u64 al) { return (a + al - 1) & ~(al - 1); }
struct Cursor { Case &c; Hd &h; u64 pos, end; // addresses
  void same(const char *what) { CHECK((u64)h.next == pos && h.rem == end - pos, "cursor", "after %s the handle is at +%lx with %u bytes left, expected +%lx with %lu", what, (u64)h.next - (u64)h.entry, h.rem, pos - (u64)h.entry, end - pos); }
  // where n bytes aligned to al go, or 0
  u64 place(u64 n, u64 al) { u64 q = up(pos, al); return q <= end && n <= end - q ? q : 0; } };
static u64 value(Case &c, int t) { u64 v = c.bits64(); if (t == FLOAT) { float f = c.chance(1, 2) ? (float)(int)v : 0; if (!f) { uint32_t b = (uint32_t)v; memcpy(&f, &b, 4); if (f != f) f = -1.5f; } return bits(f); } if (t == DOUBLE) { double d; memcpy(&d, &v, 8); if (d != d) d = -2.25; return bits(d); } u64 m = SZ[t] == 8 ? ~0ull : (1ull << SZ[t] * 8) - 1; return v & m; }
static std::string word(Case &c, u64 max) { u64 n = c.rarely(1, 8) ? max + c.below(3) : c.rarely(1, 6) ? c.below(max + 40) : c.below(std::min<u64>(max, 40) + 1); if (n && c.rarely(1, 6)) n = max ? max - 1 : 0; std::string s; u64 b = c.below(255); for (u64 i = 0; i < n; i++) s.push_back((char)(1 + (b + i * 37) % 255)); return s; }
// random puts into an entry; what fits is stored where the model says, what does not leaves the handle alone
static std::vector<Put> puts(Case &c, Fns &f, Hd &h, u64 n) {
  std::vector<Put> out; Cursor k{c, h, (u64)h.next, (u64)h.entry + h.total}; k.same("allocation");
  for (u64 i = 0; i < n; i++) { CHECK(f.freeptr(&h) == h.next, "free-pointer", "free pointer %p, next %p", f.freeptr(&h), h.next); u64 left = k.end - k.pos;
    switch (c.below(8)) {
      default: { int t = (int)c.below(NT); u64 v = value(c, t), q = k.place(SZ[t], SZ[t]); int rc = f.add(&h, t, &v); CHECK((rc == 0) == (q != 0), "put", "a %s with %lu bytes left from +%lx: %d", TN[t], left, k.pos - (u64)h.entry, rc); c.log("put %s %lx%s", TN[t], v, rc ? " refused" : ""); if (!q) { CHECK(rc == -1, "put", "refusal code %d", rc); k.same("a refused put"); break; } u64 got = 0; memcpy(&got, (void *)q, SZ[t]); CHECK(got == v, "put", "%s %lx is stored as %lx at its place +%lx", TN[t], v, got, q - (u64)h.entry); k.pos = q + SZ[t]; k.same(TN[t]); out.push_back({t, q - (u64)h.entry, SZ[t], SZ[t], v, ""}); break; }
      case 5: { std::string s = word(c, left); bool fits = s.size() + 1 <= left; int rc = f.adds(&h, s.c_str()); c.log("put a string of %zu bytes%s", s.size(), rc ? " refused" : ""); CHECK((rc == 0) == fits, "put", "a string of %zu bytes with %lu bytes left: %d", s.size() + 1, left, rc); if (!fits) { k.same("a refused string"); break; } CHECK(!memcmp((void *)k.pos, s.c_str(), s.size() + 1), "put", "string not at its place"); out.push_back({NT, k.pos - (u64)h.entry, s.size() + 1, 1, 0, s}); k.pos += s.size() + 1; k.same("a string"); break; }
      case 6: case 7: { u64 al = 1ull << c.below(c.rarely(1, 4) ? 13 : 6); u64 m; switch (c.below(6)) { case 0: m = left; break; case 1: m = left + 1; break; case 2: m = left >= 16 ? left - c.below(16) : 0; break; case 3: m = c.rarely(1, 3) ? c.bits64() : c.below(4096); break; default: m = c.below(48); } u64 q = k.place(m, al); void *p = f.alloc(&h, m, al); c.log("structure of %lx aligned to %lu -> %p", m, al, p); CHECK((u64)p == q, "alloc", "a structure of %lx bytes aligned to %lu with %lu bytes left is at %p, expected %lx", m, al, left, p, q); if (!q) { k.same("a refused structure"); break; } u64 tag = c.below(1000); fill(p, m, tag); k.pos = q + m; k.same("a structure"); out.push_back({NT + 1, q - (u64)h.entry, m, al, tag, ""}); break; }
    } }
  return out;
}
static void gets(Case &c, Fns &f, Hd &h, const std::vector<Put> &v) {
  Cursor k{c, h, (u64)h.next, (u64)h.entry + h.total}; k.same("the get");
  for (auto &p : v) { u64 at = (u64)h.entry + p.off; k.pos = at + p.n;
    if (p.t < NT) { u64 g = f.get(&h, p.t); CHECK(g == p.v, "round-trip", "%s %lx came back as %lx", TN[p.t], p.v, g); k.same("a get"); }
    else if (p.t == NT) { char *s = f.gets(&h); CHECK(s == (char *)at && p.s == s, "round-trip", "string at %p instead of %lx", s, at); k.same("a string get"); }
    else { void *s = f.sptr(&h, p.n, p.al); CHECK((u64)s == at, "round-trip", "structure at %p instead of %lx", s, at); CHECK(check_fill(s, p.n, p.v) < 0, "round-trip", "contents of a structure"); k.same("a structure get"); } }
}
// reading by a sequence of types that has nothing to do with what was written: never beyond the end
static void wild(Case &c, Fns &f, Hd &h, u64 n) {
  Cursor k{c, h, (u64)h.next, (u64)h.entry + h.total};
  for (u64 i = 0; i < n; i++) { u64 left = k.end - k.pos; int t = (int)c.below(NT + 2);
    if (t < NT) { u64 q = k.place(SZ[t], SZ[t]), want = 0; if (q) memcpy(&want, (void *)q, SZ[t]); u64 g = f.get(&h, t); bool nan = (t == FLOAT && (want & 0x7f800000) == 0x7f800000) || (t == DOUBLE && (want & 0x7ff0000000000000) == 0x7ff0000000000000); CHECK(g == want || nan, "get", "%s with %lu bytes left: %lx, the entry has %lx", TN[t], left, g, want); if (q) k.pos = q + SZ[t]; }
    else if (t == NT) { char *e = (char *)memchr((void *)k.pos, 0, left), *s = f.gets(&h); CHECK(e ? s == (char *)k.pos : !s, "get", "string with %lu bytes left: %p", left, s); if (e) k.pos = (u64)e + 1; }
    else { u64 al = 1ull << c.below(7), m = c.rarely(1, 3) ? left + c.below(2) : c.below(64), q = k.place(m, al); void *p = f.sptr(&h, m, al); CHECK((u64)p == q, "get", "structure of %lu aligned to %lu with %lu bytes left: %p, expected %lx", m, al, left, p, q); if (q) k.pos = q + m; }
    k.same("a get"); }
}
static void header(Case &c, Fns &f, Hd &h, bool done, bool stamped, int cat, int sub, u64 t0, u64 t1) {
  CHECK(!!f.iscomplete(&h) == done && !!f.isstamped(&h) == (done && stamped), "status", "complete %d, stamped %d of a%s%s entry", f.iscomplete(&h), f.isstamped(&h), done ? " complete" : "n incomplete", stamped ? " stamped" : "");
  int wc = done ? cat & 0xfff : -1, ws = done ? sub & 0xff : -1; CHECK(f.cat(&h) == wc && f.sub(&h) == ws, "category", "category %d/%d, expected %d/%d", f.cat(&h), f.sub(&h), wc, ws);
  CHECK(f.header(&h) == (done ? h.entry : nullptr), "header", "header %p of entry %p", f.header(&h), h.entry);
  if (done && stamped) { CHECK(f.stamp(&h) >= t0 && f.stamp(&h) <= t1, "stamp", "time stamp %lx outside %lx..%lx", f.stamp(&h), t0, t1); CHECK(f.pid(&h) == (getpid() & 0xffff) && f.tid(&h) == (gettid() & 0xffff), "writer", "writer %d/%d is not %d/%d", f.pid(&h), f.tid(&h), getpid(), gettid()); }
  else CHECK(!f.stamp(&h) && !f.pid(&h) && !f.tid(&h), "stamp", "stamp %lx, pid %d, tid %d", f.stamp(&h), f.pid(&h), f.tid(&h));
}
struct Entry { Hd h; int cat, sub; bool stamped; u64 t0, t1; std::vector<Put> puts; };
// several entries of one container, written in interleaved order, compared byte by byte around each write
PBT_TEST(E03, values, 4) {
  sas_join(c); bool q = c.chance(1, 2); Fns &f = q ? QUE : LOGE; u64 size = 4096ull << c.below(6), stride = c.rarely(1, 6) ? c.range(16, 65520) : c.range(16, 600);
  // the space of a block was used by others before
  u8 *blk = (u8 *)SASBlockAlloc(size); CHECK(blk, "alloc", "block"); if (c.chance(1, 2)) fill(blk, size, c.below(100)); u64 rs = up(stride, 16);
  void *o; if (q) { o = SPHSinglePCQueueInitWithStride(blk, size, (unsigned short)stride, SPHSPCQUEUE_CIRCULAR); CHECK(o, "create", "queue"); if (SPHSinglePCQueueFull(o)) c.discard(); } else { o = c.chance(1, 2) ? SPHLFLoggerInit(blk, size) : SPHLFLoggerInitWithStride(blk, size, (unsigned short)stride, 0); CHECK(o, "create", "logger"); }
  c.log("%s in a block of %lx, stride %lu", f.name, size, stride); std::vector<Entry> es; u64 n = c.range(1, 5), values = 0; std::vector<u8> snap(size);
  for (u64 i = 0; i < n; i++) { Entry e; memset(&e.h, 0, sizeof e.h); e.cat = (int)c.below(5000) - 100; e.sub = (int)c.below(600) - 50; e.stamped = true; e.t0 = sphgettimer(); void *r; u64 want;
    if (q) { e.stamped = c.chance(1, 2); r = e.stamped ? SPHSinglePCQueueAllocStrideTimeStamped(o, e.cat, e.sub, (SPHLFEntryHandle_t *)&e.h) : SPHSinglePCQueueAllocStrideEntry(o, e.cat, e.sub, (SPHLFEntryHandle_t *)&e.h); want = rs; }
    else { u64 sz = c.rarely(1, 8) ? c.below(5000) : c.below(200); SPHLFLoggerHandle_t *h = (SPHLFLoggerHandle_t *)&e.h; r = c.chance(1, 2) ? SPHLFLoggerAllocTimeStamped(o, e.cat, e.sub, sz, h) : SPHLFLoggerAllocTimeStampedNoLock(o, e.cat, e.sub, sz, h); want = up(sz, 16) + 16; }
    e.t1 = sphgettimer(); if (!r) break; CHECK(r == &e.h, "handle", "handle %p", r); CHECK(e.h.total == want && (u64)e.h.entry >= (u64)blk + 256 && (u64)e.h.entry + want <= (u64)blk + size, "size", "entry %p of %u bytes in %p+%lx, expected %lu bytes", e.h.entry, e.h.total, blk, size, want); CHECK((u64)e.h.next == (u64)e.h.entry + (e.stamped ? 16 : 4), "start", "data at +%ld", (char *)e.h.next - (char *)e.h.entry);
    header(c, f, e.h, false, e.stamped, e.cat, e.sub, e.t0, e.t1); c.log("entry %lx of %u bytes, category %d/%d%s", (u64)e.h.entry - (u64)blk, e.h.total, e.cat, e.sub, e.stamped ? "" : ", no stamp"); es.push_back(e); }
  if (es.empty()) c.discard();
  u64 rounds = es.size() * c.range(1, 4);
  for (u64 i = 0; i < rounds; i++) { Entry &e = es[c.below(es.size())]; memcpy(snap.data(), blk, size); char *from = e.h.next; auto v = puts(c, f, e.h, c.range(1, 12)); values += v.size(); e.puts.insert(e.puts.end(), v.begin(), v.end());
    u64 a = (u64)from - (u64)blk, b = (u64)e.h.entry + e.h.total - (u64)blk; long d = -1; for (u64 j = 0; j < size && d < 0; j++) if ((j < a || j >= b) && snap[j] != blk[j]) d = (long)j; CHECK(d < 0, "outside", "putting values into entry %lx+%x changed the byte at %lx", (u64)e.h.entry - (u64)blk, e.h.total, d); header(c, f, e.h, false, e.stamped, e.cat, e.sub, e.t0, e.t1); }
  std::vector<int> order; for (size_t i = 0; i < es.size(); i++) order.push_back((int)i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(i)]);
  for (int i : order) { Entry &e = es[i]; memcpy(snap.data(), blk, size); int rc = f.complete(&e.h, (int)c.below(4)); CHECK(rc == 1, "complete", "completing: %d", rc); u64 a = (u64)e.h.entry - (u64)blk; for (u64 j = 0; j < size; j++) if (j < a || j >= a + 4) CHECK(snap[j] == blk[j], "outside", "completing entry %lx changed the byte at %lx", a, j); header(c, f, e.h, true, e.stamped, e.cat, e.sub, e.t0, e.t1); }
  memcpy(snap.data(), blk, size); SPHLFLogIterator_t it; if (!q) CHECK(SPHLFLoggerCreateIterator(o, &it) == &it, "iterator", "none");
  for (auto &e : es) { Hd h; memset(&h, 0xee, sizeof h); void *r = q ? (void *)SPHSinglePCQueueGetNextComplete(o, (SPHLFEntryHandle_t *)&h) : (void *)SPHLFLoggerIteratorNext(&it, (SPHLFLoggerHandle_t *)&h); CHECK(r == &h && h.entry == e.h.entry && h.total == e.h.total, "delivery", "entry %p of %u bytes instead of %p of %u", h.entry, h.total, e.h.entry, e.h.total); Hd h2 = h; header(c, f, h, true, e.stamped, e.cat, e.sub, e.t0, e.t1); gets(c, f, h, e.puts); wild(c, f, h, 6); wild(c, f, h2, c.range(1, 30));
    CHECK(!memcmp(snap.data(), blk, size), "outside", "reading changed the container"); if (q) { CHECK(SPHSinglePCQueueFreeNextEntry(o) == 1, "free", "free"); memcpy(snap.data(), blk, size); } }
  c.count("values", values); if (values > 5) c.nontrivial();
}
// entries written by direct access and by a template
PBT_TEST(E03, direct, 1) {
  sas_join(c); u64 size = 4096ull << c.below(4), stride = c.range(16, 400), rs = up(stride, 16); SPHSinglePCQueue_t o = SPHSinglePCQueueCreateWithStride(size, (unsigned short)stride); CHECK(o, "create", "queue"); sphLFEntryID_t tp = SPHSinglePCQueueGetEntryTemplate(o); u64 n = c.range(1, 30), al = 0, k = 0; struct W { void *p; int cat, sub; u64 tag, at, n; }; std::vector<W> ws; u64 slots = (size - 256) / rs, lim = slots - 1; std::vector<u8> snap(size); u8 *blk = (u8 *)o;
  CHECK(SPHSinglePCQueueGetStride(o) == (int)rs, "stride", "stride %d for %lu", SPHSinglePCQueueGetStride(o), stride);
  for (u64 i = 0; i < n; i++) {
    if (c.chance(3, 5)) { void *d = SPHSinglePCQueueAllocStrideDirect(o); CHECK((d != nullptr) == (ws.size() < lim), "full", "%zu of %lu entries, alloc %p", ws.size(), lim, d); if (!d) continue; CHECK((u64)d == (u64)blk + 256 + al % slots * rs, "order", "entry %lu at %p", al, d); al++; memcpy(snap.data(), blk, size);
      CHECK(!SPHLFEntryDirectIsComplete(d) && !SPHLFEntryDirectIsTimestamped(d) && SPHLFEntryDirectCategory(d) == -1 && SPHLFEntryDirectSubcat(d) == -1, "status", "a new entry is complete");
      CHECK(SPHLFEntryDirectGetFreePtr(d) == (char *)d + 4, "pointer", "free pointer %p of %p", SPHLFEntryDirectGetFreePtr(d), d); u64 a = 1ull << c.below(8); u64 p = (u64)SPHLFEntryDirectGetPtrAligned(d, a); CHECK(p == up((u64)d + 4, a), "pointer", "pointer aligned to %lu is %lx", a, p);
      u64 inc = c.below(64), a2 = 1ull << c.below(8); u64 p2 = (u64)SPHLFEntryDirectIncAndAlign((void *)p, inc, a2); CHECK(p2 == up(p + inc, a2), "pointer", "%lx + %lu aligned to %lu is %lx", p, inc, a2, p2);
      W w = {d, (int)c.below(5000), (int)c.below(300), c.below(1000), 0, 0}; if (p < (u64)d + rs) { w.at = p; w.n = (u64)d + rs - p; fill((void *)p, w.n, w.tag); } CHECK(SPHLFEntryDirectComplete(d, tp, w.cat, w.sub) == 1, "complete", "complete"); for (u64 j = 0; j < size; j++) if (blk + j < (u8 *)d || blk + j >= (u8 *)d + rs) CHECK(snap[j] == blk[j], "outside", "byte %lx changed", j); ws.push_back(w); }
    else { void *g = c.chance(1, 2) ? SPHSinglePCQueueGetNextCompleteDirect(o) : SPHSinglePCQueueGetNextEntryDirect(o); CHECK((g != nullptr) == !ws.empty(), "empty", "%zu entries, got %p", ws.size(), g); if (!g) continue; W w = ws[0]; ws.erase(ws.begin()); k++; CHECK(g == w.p, "order", "got %p instead of %p", g, w.p); CHECK(SPHLFEntryDirectIsComplete(g) && SPHSinglePCQueueEntryIsCompleteDirect(g) && !SPHLFEntryDirectIsTimestamped(g) && SPHLFEntryDirectCategory(g) == (w.cat & 0xfff) && SPHLFEntryDirectSubcat(g) == (w.sub & 0xff), "status", "category %d/%d, expected %d/%d", SPHLFEntryDirectCategory(g), SPHLFEntryDirectSubcat(g), w.cat, w.sub); CHECK(!w.n || check_fill((void *)w.at, w.n, w.tag) < 0, "contents", "contents of %p", g);
      SPHLFEntryHandle_t h; CHECK(SPHSinglePCQueueGetNextComplete(o, &h) == &h && (void *)h.entry == g && h.total_size == rs && h.remaining == rs - 4 && h.next == (char *)g + 4, "handle", "handle of %p", g); CHECK(SPHSinglePCQueueFreeNextEntryDirect(o, g) == 1, "free", "free"); }
  }
  c.count("entries", al); if (k > 2) c.nontrivial();
}
