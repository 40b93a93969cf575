// C04 lock-free heap: sequential histories against a model of its units.  C05: concurrent histories.
#include "sas.h"
#include "sasallocpriv.h"
#include <functional>
#include <atomic>
extern "C" {
#include "bitv.h"
}
using namespace pbt;

struct LF { SPHLockFreeHeap_t h; u64 size, unit; std::vector<bool> busy; u64 hdr = 0; struct P { u64 n; u64 tag; u64 len; }; std::map<u64, P> live; // unit index -> units
  u64 nu() const { return size / unit; }
  u64 freeUnits() const { u64 n = 0; for (bool b : busy) n += !b; return n; }
  bool room(u64 n, u64 al) const { for (u64 w = 0; w + 64 <= nu(); w += 64) for (u64 s = 0; s + n <= 64; s += al) { bool ok = true; for (u64 j = 0; j < n && ok; j++) ok = !busy[w + s + j]; if (ok) return true; } return false; } };
static u64 lf_units(u64 n, u64 u) { return (n + u - 1) / u; }

static bool lf_make(Case &c, LF &f, void **raw, u64 *rawn) {
  static const u64 us[] = {16, 32, 64, 128, 16, 256, 1024, 4096}; f.unit = us[c.below(8)]; u64 words = 2ull << c.below(5); f.size = f.unit * 64 * words; *raw = nullptr;
  if (c.chance(2, 3)) f.h = SPHLockFreeHeapCreate(f.size, f.unit);
  else { *rawn = f.size; *raw = SASBlockAlloc(f.size < 4096 ? 4096 : f.size); CHECK(*raw, "create", "block"); if (f.size <= 65536) memset(*raw, 0xA5, f.size); f.h = SPHLockFreeHeapInit(*raw, SAS_RUNTIME_LOCKFREEHEAP, f.size, f.unit); if (f.h == (void *)-1L) f.h = nullptr; }
  u64 hdrMin = lf_units(2 * 8 * words + 128, f.unit);
  c.log("lock-free heap %lx of units %lu -> %p", f.size, f.unit, f.h);
  if (!f.h) { CHECK(hdrMin > 64 || 2 * 8 * words + 256 > 64 * f.unit, "create", "a heap of %lx with units of %lu was refused", f.size, f.unit); return false; }
  u64 fs = SPHLockFreeHeapFreeSpace(f.h); CHECK(fs % f.unit == 0 && fs < f.size && fs + 64 * f.unit >= f.size, "create", "a new heap reports %lx free of %lx", fs, f.size);
  f.hdr = (f.size - fs) / f.unit; CHECK(f.hdr * f.unit >= 64 + 16 * words, "create", "the header is only %lu units", f.hdr); f.busy.assign(f.nu(), false); for (u64 i = 0; i < f.hdr; i++) f.busy[i] = true; return true;
}
static void lf_audit(Case &c, LF &f) {
  u64 e = f.freeUnits() * f.unit, g = SPHLockFreeHeapFreeSpace(f.h); CHECK(g == e, "free-space", "heap reports %lx free, the history gives %lx", g, e);
  int em = SPHLockFreeHeapEmpty(f.h), fu = SPHLockFreeHeapFull(f.h); CHECK(!em == !f.live.empty(), "empty", "empty = %d with %zu pieces", em, f.live.size()); CHECK(!fu == (e != 0), "full", "full = %d with %lx free", fu, e);
}
static void lf_check(Case &c, LF &f, u64 i) { auto &p = f.live[i]; long r = check_fill((char *)f.h + i * f.unit, p.len, p.tag); CHECK(r < 0, "contents", "piece at +%lx changed at offset %ld", i * f.unit, r); }
static void lf_got(Case &c, LF &f, void *p, u64 n, u64 al, u64 &tag) {
  u64 k = lf_units(n, f.unit), au = al <= f.unit ? 1 : al / f.unit;
  if (!p) { CHECK(!f.room(k, au), "alloc-null", "%lu bytes aligned to %lu refused although %lu units are free in one run", n, al, k); c.count("null"); return; }
  u64 a = (u64)p - (u64)f.h; CHECK(a < f.size && a % f.unit == 0 && a % (al ? al : 1) == 0 && (u64)p % (al ? al : 1) == 0, "align", "piece at +%lx for alignment %lu", a, al);
  u64 i = a / f.unit; CHECK(i + k <= f.nu(), "range", "piece +%lx of %lu units passes the end", a, k); for (u64 j = 0; j < k; j++) { CHECK(i + j >= f.hdr, "range", "piece overlaps the header"); CHECK(!f.busy[i + j], "overlap", "unit %lu is in use already", i + j); f.busy[i + j] = true; }
  f.live[i] = {k, tag += 3, n}; fill(p, n, tag);
}
#ifndef VERIF_SCHED
PBT_TEST_X(C04, heap, 4, 0, 8, 5) {
  sas_join(c); LF f; void *raw; u64 rawn; u64 tag = 1; RegionLists r0, r1; r0.load(); u64 ub = RegionLists::sum(r0.used);
  if (!lf_make(c, f, &raw, &rawn)) { if (raw) SASBlockDealloc(raw, rawn); else { r1.load(); CHECK(RegionLists::sum(r1.used) == ub, "leak", "a refused heap keeps its block"); } c.count("refused"); return; }
  lf_audit(c, f); u64 n = c.range(1, c.thorough ? 400 : 160), frees = 0; int wf = (int)c.range(1, 5), prof = (int)c.below(4);
  for (u64 op = 0; op < n; op++) {
    if ((int)c.below(6) < wf || f.live.empty()) {
      u64 k = prof == 0 ? 1 + c.below(32) : prof == 1 ? 1 + c.below(3) : prof == 2 ? 1 + c.below(12) : 16 + c.below(17); u64 sz = k * f.unit - c.below(f.unit); if (c.rarely(1, 3)) sz = k * f.unit; if (sz == 32 * f.unit) sz--; /* the limit is below 32 units */
      int how = (int)c.below(4); void *p; u64 al = 1;
      if (how == 0 && !f.live.empty()) { auto it = f.live.begin(); std::advance(it, c.below(f.live.size())); char *at = (char *)f.h + it->first * f.unit + c.below(it->second.n * f.unit); p = SPHLockFreeHeapNearAlloc(at, sz); c.log("alloc %lu near %p -> %p", sz, at, p); }
      else if (how <= 1) { p = SPHLockFreeHeapAlloc(f.h, sz); c.log("alloc %lu -> +%lx", sz, p ? (u64)p - (u64)f.h : 0); }
      else { al = 1ull << c.below(6 + __builtin_ctzl(f.unit) + 1); if (c.chance(1, 2)) al = f.unit << c.below(7); p = SPHLockFreeHeapAlignAlloc(f.h, sz, al); c.log("alloc %lu aligned %lu -> +%lx", sz, al, p ? (u64)p - (u64)f.h : 0); c.count("aligned"); }
      lf_got(c, f, p, sz, al, tag); }
    else { auto it = f.live.begin(); std::advance(it, c.below(f.live.size())); u64 i = it->first; auto p = it->second; void *a = (char *)f.h + i * f.unit; lf_check(c, f, i);
      if (c.rarely(1, 6)) { int rc = SPHLockFreeHeapFreeChk(f.h, a, p.n * f.unit + 1); CHECK(rc, "bad-free", "freeing %lu units as %lu bytes was accepted", p.n, p.n * f.unit + 1); if (p.n > 1) { rc = SPHLockFreeHeapFreeNearChk(a, (p.n - 1) * f.unit); CHECK(rc, "bad-free", "freeing %lu units as %lu was accepted", p.n, p.n - 1); } lf_audit(c, f); }
      int rc; int how = (int)c.below(5); rc = how == 0 ? SPHLockFreeHeapFree(f.h, a) : how == 1 ? SPHLockFreeHeapFreeIn(f.h, a) : how == 2 ? SPHLockFreeHeapFreeNear(a) : how == 3 ? SPHLockFreeHeapFreeChk(f.h, a, p.len) : SPHLockFreeHeapFreeNearChk(a, p.len);
      c.log("free(%d) +%lx -> %d", how, i * f.unit, rc); CHECK(rc == 0, "free", "freeing a live piece of %lu bytes = %d (way %d)", p.len, rc, how); for (u64 j = 0; j < p.n; j++) f.busy[i + j] = false; f.live.erase(i); frees++;
      if (c.rarely(1, 6)) { rc = SPHLockFreeHeapFree(f.h, a); CHECK(rc, "double-free", "a second free of the same piece was accepted"); rc = SPHLockFreeHeapFree(f.h, (char *)f.h + f.size + c.below(4096)); CHECK(rc, "bad-free", "an address outside was accepted"); lf_audit(c, f); } }
    if (c.rarely(1, 8)) lf_audit(c, f);
    if (c.rarely(1, 16)) { u64 at = (u64)f.h + (f.live.empty() ? c.below(64) : f.live.begin()->first * f.unit); CHECK(SPHLockFreeHeapNearFind((void *)at) == f.h, "near-find", "the heap is not found from +%lx", at - (u64)f.h); }
  }
  if (frees > 2 && f.live.size() > 2) c.nontrivial();
  for (auto &x : f.live) lf_check(c, f, x.first); lf_audit(c, f);
  { u64 z = f.unit * 32 + c.below(f.unit); CHECK(!SPHLockFreeHeapAlloc(f.h, z), "too-big", "%lu units were given", z / f.unit); CHECK(!SPHLockFreeHeapAlignAlloc(f.h, f.unit, f.unit * 128), "too-big", "an alignment of 128 units was served"); if (f.unit >= 2) CHECK(!SPHLockFreeHeapAlignAlloc(f.h, f.unit, f.unit * 3), "align", "an alignment that is no power of two was served"); lf_audit(c, f); }
  for (auto &x : f.live) CHECK(SPHLockFreeHeapFree(f.h, (char *)f.h + x.first * f.unit) == 0, "free", "free at the end"); f.live.clear(); f.busy.assign(f.nu(), false); for (u64 i = 0; i < f.hdr; i++) f.busy[i] = true; lf_audit(c, f);
  { u64 g = 0; while (SPHLockFreeHeapAlloc(f.h, f.unit)) g++; CHECK(g == f.nu() - f.hdr, "whole", "%lu single units could be had from the emptied heap, expected %lu", g, f.nu() - f.hdr); CHECK(SPHLockFreeHeapFull(f.h), "full", "not full"); }
  if (raw) SASBlockDealloc(raw, rawn); else CHECK(SPHLockFreeHeapDestroy(f.h) == 0, "destroy", "destroy failed");
  r1.load(); CHECK(RegionLists::sum(r1.used) == ub, "leak", "the destroyed heap's block is still in use");
}
// every pair of sizes: either refused without using region space, or a heap that can be used
PBT_TEST_X(C04, sizes, 1, 0, 8, 5) {
  sas_join(c); RegionLists r0, r1; r0.load(); u64 ub = RegionLists::sum(r0.used); int ok = 0;
  for (int i = 0; i < 12; i++) { u64 u = 16ull << c.below(16), s = 4096ull << c.below(17); if (s > (1u << 28)) s = 1u << 28; if (c.rarely(1, 6)) u += 8; if (c.rarely(1, 6)) s += 4096; SPHLockFreeHeap_t h = SPHLockFreeHeapCreate(s, u); c.log("create %lx units %lu -> %p", s, u, h); r1.load();
    if (!h) { CHECK(RegionLists::sum(r1.used) == ub, "leak", "a refused heap of %lx, units %lu, uses region space", s, u); continue; }
    CHECK((s & (s - 1)) == 0 && (u & (u - 1)) == 0, "sizes", "a size that is no power of two was accepted"); ok++;
    u64 fs = SPHLockFreeHeapFreeSpace(h); CHECK(fs > 0 && fs < s && fs + 64 * u >= s, "sizes", "new heap of %lx, units %lu reports %lx free", s, u, fs); void *p = SPHLockFreeHeapAlloc(h, u * 32 - 1 - c.below(u - 1)); CHECK(p && p > h && (u64)p + 32 * u <= (u64)h + s, "sizes", "first allocation in a heap of %lx, units %lu = %p", s, u, p);
    CHECK(SPHLockFreeHeapFreeSpace(h) == fs - 32 * u, "free-space", "free space"); CHECK(SPHLockFreeHeapFree(h, p) == 0, "free", "free refused"); CHECK(SPHLockFreeHeapDestroy(h) == 0, "destroy", "destroy"); }
  if (ok > 1) c.nontrivial();
}
// the unit vectors underneath
PBT_TEST_X(C04, bitv, 2, NOSTORE, 6, 3) {
  bitv_cb_t cb; u64 lg = c.below(12), unit = 1ull << lg; bitv_init(&cb, unit); bitv_word v = ~0ul, e = 0; std::map<u64, u64> live; u64 busy = 0; bool marked = c.chance(1, 2); u64 frees = 0;
  auto fits = [&](u64 n, u64 al) { for (u64 s = 0; s + n <= 64; s += al) { u64 m = (n == 64 ? ~0ul : (1ul << n) - 1) << s; if (!(busy & m)) return true; } return false; };  // bit s = unit s
  for (u64 op = 0; op < 150; op++) {
    if (live.empty() || c.chance(3, 5)) { u64 n = c.chance(2, 3) ? 1 + c.below(9) : 1 + c.below(64); u64 sz = n * unit - c.below(unit); u64 al = 0; ssize_t o;
      if (c.chance(1, 2)) { al = unit << c.below(7); o = marked ? bitv_aligned_alloc_marked(&cb, &v, &e, sz, al) : bitv_aligned_alloc(&cb, &v, sz, al); } else o = marked ? bitv_alloc_marked(&cb, &v, &e, sz) : bitv_alloc(&cb, &v, sz);
      c.log("alloc %lu units aligned %lu -> %ld", n, al / unit, o); u64 au = al ? al / unit : 1;
      if (o < 0) { CHECK(!fits(n, au), "bitv-null", "%lu units aligned to %lu refused although they fit", n, au); continue; }
      u64 i = (u64)o / unit; CHECK((u64)o % unit == 0 && i % au == 0 && i + n <= 64, "bitv-range", "offset %ld for %lu units aligned to %lu", o, n, au); u64 m = (n == 64 ? ~0ul : (1ul << n) - 1) << i; CHECK(!(busy & m), "bitv-overlap", "units %lu+%lu overlap", i, n); busy |= m; live[i] = n; }
    else { auto it = live.begin(); std::advance(it, c.below(live.size())); u64 i = it->first, n = it->second; int rc = marked ? bitv_free_marked(&cb, &v, &e, i * unit) : bitv_dealloc(&cb, &v, i * unit, n * unit); CHECK(rc == 0, "bitv-free", "free of %lu+%lu = %d", i, n, rc); busy &= ~((n == 64 ? ~0ul : (1ul << n) - 1) << i); live.erase(i); frees++;
      if (marked && c.rarely(1, 4)) CHECK(bitv_free_marked(&cb, &v, &e, i * unit), "bitv-double", "second free accepted"); }
    CHECK(bitv_free_space(&cb, &v) == (u64)__builtin_popcountl(~busy) * unit, "bitv-free-space", "free space %lu, model %lu units", bitv_free_space(&cb, &v), (u64)__builtin_popcountl(~busy));
  }
  if (frees > 3) c.nontrivial();
}
#endif
// ---- C05
struct FOp { int kind; u64 sz, al; int how, pick, pause; }; // kind: 0 alloc, 1 free, 2 report
static std::vector<FOp> lf_plan(u64 n, u64 unit, int prof, std::function<u64(u64)> below) { std::vector<FOp> v; for (u64 i = 0; i < n; i++) { FOp o; o.kind = below(9) < 5 ? 0 : below(8) ? 1 : 2; u64 k = prof == 0 ? 1 + below(3) : prof == 1 ? 1 + below(31) : prof == 2 ? 14 + below(18) : 1 + below(9); o.sz = k * unit - below(unit); o.al = 0; if (below(4) == 3) o.al = unit << below(6); o.how = (int)below(5); o.pick = (int)below(8); o.pause = (int)below(3); v.push_back(o); } return v; }
static void *lf_alloc(SPHLockFreeHeap_t h, const FOp &o, void *near) { return o.al ? SPHLockFreeHeapAlignAlloc(h, o.sz, o.al) : near ? SPHLockFreeHeapNearAlloc(near, o.sz) : SPHLockFreeHeapAlloc(h, o.sz); }
static int lf_free(SPHLockFreeHeap_t h, void *a, u64 len, int how) { return how == 0 ? SPHLockFreeHeapFree(h, a) : how == 1 ? SPHLockFreeHeapFreeIn(h, a) : how == 2 ? SPHLockFreeHeapFreeNear(a) : how == 3 ? SPHLockFreeHeapFreeChk(h, a, len) : SPHLockFreeHeapFreeNearChk(a, len); }
static void lf_whole(Case &c, LF &f) { u64 fs = SPHLockFreeHeapFreeSpace(f.h), want = (f.nu() - f.hdr) * f.unit; CHECK(fs == want, "lost", "after everything was freed %lx bytes are free, initially %lx", fs, want); CHECK(SPHLockFreeHeapEmpty(f.h) && !SPHLockFreeHeapFull(f.h), "empty", "the heap is not empty"); u64 g = 0; void *p; std::set<void *> ps; while ((p = SPHLockFreeHeapAlloc(f.h, f.unit))) { CHECK(ps.insert(p).second, "overlap", "a unit is handed out twice"); g++; } CHECK(g == f.nu() - f.hdr, "lost", "%lu single units could be had from the emptied heap, expected %lu", g, f.nu() - f.hdr); }
#ifdef VERIF_SCHED
#include "sched_api.h"
PBT_TEST_X(C05, schedules, 4, 0, 20, 10) {
  sas_join(c); LF f; void *raw = nullptr; static const u64 us[] = {16, 64, 128, 32}; f.unit = us[c.below(4)]; u64 words = 2ull << (c.rarely(1, 3) ? c.below(4) : c.below(2)); f.size = f.unit * 64 * words; f.h = SPHLockFreeHeapCreate(f.size, f.unit); if (!f.h) c.discard(); (void)raw; u64 fs0 = SPHLockFreeHeapFreeSpace(f.h); f.hdr = (f.size - fs0) / f.unit; f.busy.assign(f.nu(), false); for (u64 i = 0; i < f.hdr; i++) f.busy[i] = true;
  // some of the heap is in use
  u64 tag = 1; { u64 pre = c.chance(1, 2) ? 0 : c.below(f.nu() - f.hdr); std::vector<void *> hold; while (pre--) { void *p = SPHLockFreeHeapAlloc(f.h, f.unit); if (!p) break; u64 i = ((u64)p - (u64)f.h) / f.unit; f.busy[i] = true; f.live[i] = {1, tag += 3, f.unit}; fill(p, f.unit, tag); } std::vector<u64> ks; for (auto &x : f.live) ks.push_back(x.first); for (u64 k : ks) if (c.rarely(1, 3)) { SPHLockFreeHeapFree(f.h, (char *)f.h + k * f.unit); f.busy[k] = false; f.live.erase(k); } }
  u64 prelive = f.live.size(); int T = (int)c.range(2, 4), prof = (int)c.below(4); std::vector<std::vector<FOp>> plan(T); for (auto &p : plan) p = lf_plan(c.range(1, c.thorough ? 24 : 12), f.unit, prof, [&](u64 n) { return c.below(n); });
  c.log("heap of %lu words of %lu-byte units, %lu units in use, %d threads", words, f.unit, prelive, T); u64 open = 0, begun = 0, nulls = 0, got = 0, lost = 0; std::vector<std::function<void()>> fs; u64 freeing = 0, allocating = 0; (void)lost;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { struct M { u64 i, n, tag, len; }; std::vector<M> mine;
    auto give = [&](u64 k, int how) { M m = mine[k]; mine.erase(mine.begin() + k); void *a = (char *)f.h + m.i * f.unit; { sched::Quiet z; long d = check_fill(a, m.len, m.tag); CHECK(d < 0, "contents", "thread %d: piece at unit %lu changed at +%ld", t, m.i, d); for (u64 j = 0; j < m.n; j++) f.busy[m.i + j] = false; open++; begun++; freeing += m.n; c.log("thread %d frees unit %lu (%lu)", t, m.i, m.n); } int rc = lf_free(f.h, a, m.len, how); sched::Quiet z; open--; freeing -= m.n; CHECK(rc == 0, "free", "freeing a live piece of %lu units = %d (way %d)", m.n, rc, how); };
    for (auto &o : plan[t]) { for (int k = 0; k < o.pause; k++) sched::yield();
      if (o.kind == 0) { bool alone; u64 b0; { sched::Quiet z; alone = !open; open++; b0 = ++begun; } u64 n = lf_units(o.sz, f.unit); { sched::Quiet z; allocating += n; } void *near = o.how > 2 && !mine.empty() ? (char *)f.h + mine[0].i * f.unit : nullptr; if (o.sz >= 32 * f.unit) { sched::Quiet z; open--; allocating -= n; continue; } void *p = lf_alloc(f.h, o, near);
        sched::Quiet z; open--; allocating -= n; u64 au = o.al <= f.unit ? 1 : o.al / f.unit; if (!p) { nulls++; c.log("thread %d: %lu units refused", t, n); CHECK(!(alone && b0 == begun && f.room(n, au)), "alloc-null", "%lu units aligned to %lu refused though there is room and nobody else is active", n, au); continue; }
        u64 a = (u64)p - (u64)f.h; CHECK(a < f.size && a % f.unit == 0 && (!o.al || (u64)p % o.al == 0), "align", "piece at +%lx for alignment %lu", a, o.al); u64 i = a / f.unit; CHECK(i >= f.hdr && i + n <= f.nu(), "range", "piece at unit %lu of %lu units", i, n); for (u64 j = 0; j < n; j++) { CHECK(!f.busy[i + j], "overlap", "thread %d gets unit %lu, which is in use", t, i + j); f.busy[i + j] = true; } u64 tg = tag += 3; fill(p, o.sz, tg); mine.push_back({i, n, tg, o.sz}); got++; c.log("thread %d gets units %lu+%lu", t, i, n); }
      else if (o.kind == 1) { if (!mine.empty()) give(o.pick % mine.size(), o.how); }
      else { u64 hi, lo; { sched::Quiet z; (void)hi; (void)lo; } bool alone; u64 b0, fr; { sched::Quiet z; alone = !open; b0 = begun; fr = f.freeUnits(); } u64 g = SPHLockFreeHeapFreeSpace(f.h); sched::Quiet z; if (alone && b0 == begun) CHECK(g == fr * f.unit, "free-space", "%lx free, expected %lx", g, fr * f.unit); CHECK(g % f.unit == 0 && g <= fs0, "free-space", "%lx free", g); } }
    while (!mine.empty()) give(mine.size() - 1, (int)mine.size() % 5); });
  sched::run(c, fs); for (auto &x : f.live) { lf_check(c, f, x.first); CHECK(SPHLockFreeHeapFree(f.h, (char *)f.h + x.first * f.unit) == 0, "free", "a piece that was there before cannot be freed"); } lf_whole(c, f); c.count("got", got); c.count("refused", nulls); if (got > 3) c.nontrivial();
}
#else
#include "procs.h"
PBT_TEST_X(C05, stress, 1, NONDET, 60, 120) {
  sas_join(c); LF f; f.unit = 16ull << c.below(5); u64 words = 2ull << c.below(6); f.size = f.unit * 64 * words; f.h = SPHLockFreeHeapCreate(f.size, f.unit); if (!f.h) c.discard(); u64 fs0 = SPHLockFreeHeapFreeSpace(f.h); f.hdr = (f.size - fs0) / f.unit; int P = (int)c.range(1, 3), T = (int)c.range(P > 1 ? 1 : 2, 4); u64 per = c.range(50, 3000), seed = c.bits64(); int prof = (int)c.below(4); c.log("heap of %lu words of %lu-byte units, %d processes of %d threads, %lu operations each", words, f.unit, P, T, per);
  std::atomic<int> *own = shared<std::atomic<int>>(f.nu()); struct Sh { volatile u64 ready, go; std::atomic<u64> got, nulls; }; Sh *sh = shared<Sh>(1);
  SASCleanUp(); std::vector<int> pids; for (int p = 0; p < P; p++) pids.push_back(c.start([&] { sas_join(c); std::vector<std::function<void()>> fs; std::vector<pthread_t> th(T); for (int t = 0; t < T; t++) fs.push_back([&, t] { int me = p * T + t + 1; Rng r(seed + me * 7919); struct M { void *a; u64 n, len, tag; }; std::vector<M> mine; u64 tag = me * 1000003ull; auto give = [&](u64 k, int how) { M m = mine[k]; mine[k] = mine.back(); mine.pop_back(); long d = check_fill(m.a, m.len, m.tag); CHECK(d < 0, "contents", "a piece of %lu units changed at +%ld", m.n, d); u64 i = ((u64)m.a - (u64)f.h) / f.unit; for (u64 j = 0; j < m.n; j++) { int o = own[i + j].exchange(0); CHECK(o == me, "overlap", "unit %lu is owned by %d, not %d", i + j, o, me); } int rc = lf_free(f.h, m.a, m.len, how); CHECK(rc == 0, "free", "freeing a live piece of %lu units = %d (way %d)", m.n, rc, how); };
      while (!sh->go) sched_yield(); auto plan = lf_plan(per, f.unit, prof, [&](u64 n) { return r.below(n); }); u64 cap = std::max<u64>(2, f.nu() / 8 / (T * P)); for (auto &o : plan) { if (o.kind == 0 && o.sz < 32 * f.unit && mine.size() < cap * 2) { void *q = lf_alloc(f.h, o, o.how > 2 && !mine.empty() ? mine[0].a : nullptr); if (!q) { sh->nulls++; continue; } sh->got++; u64 n = lf_units(o.sz, f.unit), i = ((u64)q - (u64)f.h) / f.unit; CHECK(i >= f.hdr && i + n <= f.nu(), "range", "piece at unit %lu", i); for (u64 j = 0; j < n; j++) { int e = 0; CHECK(own[i + j].compare_exchange_strong(e, me), "overlap", "unit %lu is given to %d while %d has it", i + j, me, e); } tag++; fill(q, o.sz, tag); mine.push_back({q, n, o.sz, tag}); } else if (o.kind != 2) { if (!mine.empty()) give(r.below(mine.size()), o.how); } else SPHLockFreeHeapFreeSpace(f.h); }
      while (!mine.empty()) give(0, (int)mine.size() % 5); });
    for (int t = 0; t < T; t++) pthread_create(&th[t], nullptr, [](void *q) -> void * { (*(std::function<void()> *)q)(); return nullptr; }, &fs[t]); __atomic_fetch_add(&sh->ready, 1, __ATOMIC_SEQ_CST); if (p == 0) { while (sh->ready < (u64)P) sched_yield(); sh->go = 1; } for (auto &t : th) pthread_join(t, nullptr); SASCleanUp(); }));
  for (int p : pids) c.wait(p); sas_join(c); lf_whole(c, f); c.count("got", sh->got); c.count("refused", sh->nulls); if (sh->got > 20) c.nontrivial();
}
#endif
