// E02: several writers of one logger or portal, on all schedules ("sched") and in free-running threads and processes ("plain")
#include "procs.h"
using namespace pbt;
static u64 up(u64 a) { return (a + 15) & ~15ull; }
struct W { u64 at, len, id; int cat, sub, kind, tid, pid; bool done; u64 t0, t1, seq; }; // one entry handed out
enum { SIZED, STRIDE, RAW };
struct Op { int kind, cat, sub, hold, how; u64 n; };
static Op draw(Case &c, u64 room, u64 stride, bool circ) { Op o; o.kind = circ ? (int)STRIDE : (int)c.below(stride ? 3 : 2) * 2 % 3; if (!stride && o.kind == STRIDE) o.kind = SIZED; o.cat = (int)c.below(4096); o.sub = (int)c.below(256); o.hold = (int)c.below(4); o.how = (int)c.below(4); o.n = c.rarely(1, 8) ? room / c.range(1, 4) : c.below(200); u64 m = std::min<u64>(room, 255 * 16) - 16; if (o.n > m) o.n = m; return o; }
static u64 length(const Op &o, u64 stride) { return o.kind == STRIDE ? stride : o.kind == SIZED ? up(o.n) + 16 : up(o.n + 16); }
static u64 hdr(const W &x) { return x.kind == RAW ? 4 : 16; }
static u64 request(void *log, bool portal, const Op &o, SPHLFLoggerHandle_t &h) { SPHLFLoggerHandle_t *r = nullptr; memset(&h, 0, sizeof h);
  switch (o.kind) { case STRIDE: r = portal ? SPHLogPortalAllocStrideTimeStamped(log, o.cat, o.sub, &h) : SPHLFLoggerAllocStrideTimeStamped(log, o.cat, o.sub, &h); break; case SIZED: r = portal ? SPHLogPortalAllocTimeStamped(log, o.cat, o.sub, o.n, &h) : SPHLFLoggerAllocTimeStamped(log, o.cat, o.sub, o.n, &h); break;
    default: h.entry = (SPHLFLogHeader_t *)(portal ? SPHLogPortalAllocRaw(log, o.n + 16) : SPHLFLoggerAllocRaw(log, o.n + 16)); return (u64)h.entry; }
  return r ? (u64)h.entry : 0; }
static void head(u64 a, u64 len, const Op &o) { if (o.kind != RAW) return; sphLogEntry_t w; memset(&w, 0, sizeof w); w.detail.len = len / 16; w.detail.category = o.cat; w.detail.subcat = o.sub; ((SPHLFLogHeader_t *)a)->entryID = w; }
static void finish(u64 a, const Op &o) { SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)a; int how = o.kind == RAW ? 0 : o.how; switch (how) { case 0: SPHLFLoggerEntryComplete(&h); break; case 1: SPHLFLogEntryComplete(&h); break; case 2: SPHLFLogEntryWeakComplete(&h); break; default: SPHLFLogEntryStrongComplete(&h); } }
static void body(const W &x) { fill((void *)(x.at + hdr(x)), x.len - hdr(x), x.id); }
static void intact(Case &c, const W &x) { long d = check_fill((void *)(x.at + hdr(x)), x.len - hdr(x), x.id); CHECK(d < 0, "contents", "entry %lu at %lx+%lx changed at +%lx", x.id, x.at, x.len, d + hdr(x)); }
static void delivered(Case &c, const W &x, SPHLFLoggerHandle_t &h) {
  CHECK((u64)h.entry == x.at, "delivery", "delivered %p, expected entry %lu at %lx", h.entry, x.id, x.at); CHECK(h.total_size == x.len && h.remaining == x.len - hdr(x), "delivery", "entry %lu of %lu bytes delivered with %u, %u left", x.id, x.len, h.total_size, h.remaining);
  CHECK(SPHLFLogEntryCategory(&h) == x.cat && SPHLFLogEntrySubcat(&h) == x.sub, "category", "entry %lu: category %d/%d, expected %d/%d", x.id, SPHLFLogEntryCategory(&h), SPHLFLogEntrySubcat(&h), x.cat, x.sub);
  if (x.kind != RAW) { u64 t = SPHLFLogEntryTimeStamp(&h); CHECK(t >= x.t0 && t <= x.t1, "stamp", "time stamp %lx, expected %lx..%lx", t, x.t0, x.t1); CHECK(SPHLFLogEntryPID(&h) == (x.pid & 0xffff) && SPHLFLogEntryTID(&h) == (x.tid & 0xffff), "writer", "entry %lu: writer %d/%d, expected %d/%d", x.id, SPHLFLogEntryPID(&h), SPHLFLogEntryTID(&h), x.pid & 0xffff, x.tid & 0xffff); }
  intact(c, x); }
static SPHLFLogger_t make(Case &c, u64 size, u64 stride, bool circ) {
  SPHLFLogger_t o; if (c.chance(1, 2)) { void *b = SASBlockAlloc(size); CHECK(b, "alloc", "block"); if (c.chance(1, 2)) fill(b, size, c.below(50)); o = stride ? SPHLFLoggerInitWithStride(b, size, (unsigned short)stride, circ ? SPHLFLOGGER_CIRCULAR : 0) : SPHLFLoggerInit(b, size); }
  else if (circ) o = SPHLFCircularLoggerCreate(size, (unsigned short)stride); else if (!stride) o = SPHLFLoggerCreate(size); else { o = SASBlockAlloc(size); CHECK(o, "alloc", "block"); o = SPHLFLoggerInitWithStride(o, size, (unsigned short)stride, 0); }
  CHECK(o, "create", "logger"); return o; }
#ifdef VERIF_SCHED
#include "sched_api.h"
// a logger that is filled once, or a portal of such loggers
static void linear(Case &c, bool portal) {
  sas_join(c); u64 L = portal ? c.range(1, 4) : 1, size = 4096, room = size - 256, stride = c.chance(1, 2) ? up(c.range(16, c.rarely(1, 3) ? 2000 : 400)) : 0; std::vector<SPHLFLogger_t> lg; std::vector<u64> skip; SPHLogPortal_t P = nullptr; if (portal) { P = SPHLogPortalCreate(4096); CHECK(P, "create", "portal"); }
  for (u64 i = 0; i < L; i++) { lg.push_back(make(c, size, stride, false)); u64 s = c.chance(1, 2) ? 0 : up(c.below(c.chance(1, 2) ? 3600 : room)); u64 left = s; while (left >= 16) { SPHLFLoggerHandle_t h; u64 n = std::min<u64>(left - 16, 4064); CHECK(SPHLFLoggerAllocTimeStamped(lg[i], 9, 9, n, &h), "alloc", "leading entry"); finish((u64)h.entry, {STRIDE, 9, 9, 0, 1, 0}); left -= n + 16; } skip.push_back(s - left); }
  u64 first = portal ? c.below(L + 1) : 1; if (!first && c.chance(1, 2)) first = 1; if (portal) for (u64 i = 0; i < first; i++) CHECK(SPHLogPortalAddLogger(P, lg[i]) == lg[i], "add", "logger"); std::vector<SPHLFLogger_t> order(lg.begin(), lg.begin() + (portal ? first : 1));
  int T = (int)c.range(1, 4); std::vector<std::vector<Op>> plan(T); u64 total = 0; for (auto &p : plan) { u64 n = c.range(1, c.thorough ? 14 : 8); for (u64 i = 0; i < n; i++) p.push_back(draw(c, room, stride, false)), total++; }
  c.log("%s of %lu logger(s) of %lu bytes (%lu in use), stride %lu, %d writers, %lu requests", portal ? "portal" : "logger", L, size, skip[0], stride, T, total);
  Ivals live; std::vector<W> all; u64 started = 0, ids = 0, refused = 0; std::vector<std::function<void()>> fs; void *tgt = portal ? (void *)P : lg[0]; u64 adding = 0, added = portal ? first : 1;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { std::vector<std::pair<W, Op>> mine; u64 seq = 0; auto close = [&] { auto p = mine[0]; mine.erase(mine.begin()); { sched::Quiet z; head(p.first.at, p.first.len, p.second); body(p.first); } sched::yield(); finish(p.first.at, p.second); sched::Quiet z; intact(c, p.first); for (auto &x : all) if (x.id == p.first.id) x.done = true; };
    for (auto &o : plan[t]) { u64 len = length(o, stride), t0, ad; SPHLFLoggerHandle_t h; { sched::Quiet z; started += len; t0 = sphgettimer(); ad = added; } u64 a = request(tgt, portal, o, h);
      { sched::Quiet z; W x; memset(&x, 0, sizeof x); x.at = a; x.len = len; x.id = ++ids; x.kind = o.kind; x.cat = o.cat; x.sub = o.sub; x.tid = gettid(); x.pid = getpid(); x.t0 = t0; x.t1 = sphgettimer(); x.seq = seq++; c.log("writer %d: entry %lu of %lu -> %lx", t, x.id, len, a);
        if (!a) { refused++; // every logger that was there when the request began is full
          for (u64 i = 0; i < ad; i++) { SPHLFLogger_t f = portal ? SPHLogPortalGetLoggerByIndex(P, i) : lg[0]; CHECK(SPHLFLoggerFull(f), "full", "a request of %lu bytes is refused, but logger %lu of %lu still has %lu bytes", len, i, ad, SPHLFLoggerFreeSpace(f)); }
          continue; }
        bool in = false; for (u64 i = 0; i < L; i++) in |= a >= (u64)lg[i] + 256 + skip[i] && a + len <= (u64)lg[i] + size; CHECK(in, "bounds", "entry %lx+%lx is in none of the loggers", a, len); Ival w; CHECK(!live.hits(a, len, &w), "overlap", "entry %lu at %lx+%lx overlaps one at %lx+%lx", x.id, a, len, w.a, w.n); live.add(a, len);
        if (o.kind != RAW) CHECK(h.total_size == len && h.remaining == len - 16 && h.next == (char *)a + 16, "handle", "entry of %lu: %u, %u left", len, h.total_size, h.remaining);
        if (o.kind == RAW) head(a, len, o); body(x); all.push_back(x); mine.push_back({x, o}); }
      while ((int)mine.size() > o.hold) close(); sched::yield(); }
    while (!mine.empty()) close(); });
  if (portal && first < L) { int A = L - first > 1 && c.chance(1, 2) ? 2 : 1; for (int k = 0; k < A; k++) fs.push_back([&, k] { for (u64 i = first + k; i < L; i += A) { for (u64 j = 0; j < i; j++) sched::yield(); { sched::Quiet z; adding++; } SPHLFLogger_t r = SPHLogPortalAddLogger(P, lg[i]); sched::Quiet z; CHECK(r == lg[i], "add", "adding a logger: %p", r); added++; } }); }
  sched::run(c, fs);
  // afterwards
  std::map<u64, W *> by; for (auto &x : all) { CHECK(x.done, "test", "done"); by[x.at] = &x; intact(c, x); }
  if (portal) { CHECK(SPHLogPortalEntries(P) == (int)L, "add", "%d loggers in the portal, %lu were added", SPHLogPortalEntries(P), L); order.clear(); std::set<SPHLFLogger_t> seen; for (u64 i = 0; i < L; i++) { SPHLFLogger_t l = SPHLogPortalGetLoggerByIndex(P, i); CHECK(std::count(lg.begin(), lg.end(), l) == 1 && seen.insert(l).second && (i >= first || l == lg[i]), "add", "logger %lu is %p", i, l); order.push_back(l); } }
  auto skipof = [&](SPHLFLogger_t l) { return skip[std::find(lg.begin(), lg.end(), l) - lg.begin()]; };
  u64 n = 0; std::map<int, u64> lastseq; // each logger by itself
  for (auto l : order) { u64 pos = (u64)l + 256 + skipof(l); SPHLFLogIterator_t it; CHECK(SPHLFLoggerCreateIterator(l, &it), "iterator", "no iterator"); SPHLFLoggerHandle_t h; while (SPHLFLoggerIteratorNext(&it, &h)) { if ((u64)h.entry < pos && (u64)h.entry < (u64)l + 256 + skipof(l)) continue; auto f = by.find((u64)h.entry); CHECK(f != by.end(), "delivery", "an entry at +%lx that nobody wrote", (u64)h.entry - (u64)l); W &x = *f->second; CHECK((u64)h.entry == pos, "delivery", "entry at +%lx, expected +%lx", (u64)h.entry - (u64)l, pos - (u64)l); delivered(c, x, h); pos += x.len; n++; } }
  CHECK(n == all.size(), "lost", "%lu of %lu completed entries are found", n, all.size());
  for (auto l : order) { std::map<int, u64> s; for (auto &q : by) if (q.first > (u64)l && q.first < (u64)l + size) { W &x = *q.second; auto f = s.find(x.tid); CHECK(f == s.end() || f->second < x.seq, "order", "entries of writer %d are out of order", x.tid); s[x.tid] = x.seq; } }
  if (portal && L) { SPHLFPortalIterator_t it; CHECK(SPHLFPortalCreateIterator(P, &it), "iterator", "no portal iterator"); SPHLFLoggerHandle_t h; u64 m = 0; std::vector<u64> want, got; for (auto l : order) for (auto &q : by) if (q.first > (u64)l && q.first < (u64)l + size) want.push_back(q.first); while (SPHLFPortalIteratorNext(&it, &h)) { if (by.count((u64)h.entry)) got.push_back((u64)h.entry); CHECK(++m < 2000, "delivery", "the portal delivers for ever"); } CHECK(want == got, "delivery", "the portal delivers %lu entries, expected %lu", got.size(), want.size());
    // writers move on only from a full logger
    int cur = SPHLogPortalGetCurrentIndex(P); for (int i = 0; i < cur; i++) CHECK(SPHLFLoggerFull(order[i]), "moved", "the portal left logger %d before it was full", i); for (u64 i = cur + 1; i < L; i++) for (auto &q : by) CHECK(!(q.first > (u64)order[i] && q.first < (u64)order[i] + size), "moved", "an entry in logger %lu, the current one is %d", i, cur); }
  c.count("entries", n); c.count("refused", refused); if (T > 1 && n > 3) c.nontrivial();
}
PBT_TEST_X(E02, fill, 3, 0, 20, 10) { linear(c, false); }
PBT_TEST_X(E02, portals, 2, 0, 20, 10) { linear(c, true); }
// a circular logger
PBT_TEST_X(E02, wrap, 3, 0, 20, 10) {
  sas_join(c); int T = (int)c.range(1, 4); u64 slots = c.range(T + 1, T + (c.rarely(1, 3) ? 20 : 5)), size = 4096, room = size - 256, stride = room / slots & ~15ull; slots = room / stride; SPHLFLogger_t l = make(c, size, stride, true); std::vector<std::vector<Op>> plan(T); u64 N = 0; for (auto &p : plan) { u64 n = c.range(1, c.thorough ? 24 : 12); for (u64 i = 0; i < n; i++) p.push_back(draw(c, room, stride, true)), N++; }
  c.log("circular logger of %lu slots of %lu bytes, %d writers, %lu entries", slots, stride, T, N); std::vector<W> pos(N + slots); for (auto &x : pos) x.id = 0, x.done = false; std::vector<u64> gen(slots, 0); u64 started = 0, prefix = 0, ids = 0; std::vector<std::function<void()>> fs;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { std::vector<std::pair<W, Op>> mine; u64 seq = 0; auto close = [&] { auto p = mine[0]; mine.erase(mine.begin()); { sched::Quiet z; body(p.first); } sched::yield(); finish(p.first.at, p.second); sched::Quiet z; intact(c, p.first); for (u64 i = prefix; i < N; i++) if (pos[i].id == p.first.id) pos[i].done = true; while (prefix < N && pos[prefix].done) prefix++; };
    for (auto &o : plan[t]) { for (;;) { bool go; { sched::Quiet z; go = started + 1 - prefix <= slots; if (go) started++; } if (go) break; if (!mine.empty()) close(); else sched::yield(); }
      SPHLFLoggerHandle_t h; u64 t0; { sched::Quiet z; t0 = sphgettimer(); } u64 a = request(l, false, o, h);
      { sched::Quiet z; u64 s = (a - (u64)l - 256) / stride; CHECK(a && a >= (u64)l + 256 && (a - (u64)l - 256) % stride == 0 && s < slots, "place", "entry at %lx", a - (u64)l); u64 p = gen[s]++ * slots + s; W x; memset(&x, 0, sizeof x); x.at = a; x.len = stride; x.id = ++ids; x.kind = STRIDE; x.cat = o.cat; x.sub = o.sub; x.tid = gettid(); x.pid = getpid(); x.t0 = t0; x.t1 = sphgettimer(); x.seq = seq++; c.log("writer %d: entry %lu in slot %lu", t, x.id, s);
        CHECK(p < started, "overlap", "slot %lu is handed out for the %luth time after %lu requests", s, gen[s], started); CHECK(!pos[p].id, "test", "position"); if (p >= slots) { CHECK(pos[p - slots].done, "overlap", "slot %lu is handed out again before its entry was completed", s); if (stride > 16) intact(c, pos[p - slots]); } CHECK(h.total_size == stride && h.remaining == stride - 16, "handle", "handle of %u", h.total_size); body(x); pos[p] = x; mine.push_back({x, o}); }
      while ((int)mine.size() > o.hold) close(); sched::yield(); }
    while (!mine.empty()) close(); });
  sched::run(c, fs);
  for (u64 i = 0; i < N; i++) CHECK(pos[i].id && pos[i].done, "lost", "position %lu of %lu was never handed out", i, N); for (u64 i = N; i < pos.size(); i++) CHECK(!pos[i].id, "overlap", "more positions than entries");
  std::map<int, u64> last; for (u64 i = 0; i < N; i++) { auto f = last.find(pos[i].tid); CHECK(f == last.end() || f->second < pos[i].seq, "order", "entries of one writer are out of order"); last[pos[i].tid] = pos[i].seq; }
  CHECK(!!SPHLFLoggerWrapped(l) == (N > slots), "wrapped", "wrapped %d after %lu entries in %lu slots", SPHLFLoggerWrapped(l), N, slots); u64 from = N > slots ? N - slots : 0, n = 0; SPHLFLogIterator_t it; CHECK(SPHLFLoggerCreateIterator(l, &it), "iterator", "no iterator"); SPHLFLoggerHandle_t h; while (SPHLFLoggerIteratorNext(&it, &h)) { CHECK(from + n < N, "delivery", "more entries than there are"); delivered(c, pos[from + n], h); n++; } CHECK(from + n == N, "lost", "%lu of %lu entries are found", n, N - from);
  c.count("entries", N); if (N > slots && T > 1) c.nontrivial();
}
// a full logger is made empty by exactly one of those who try
PBT_TEST_X(E02, reset, 1, 0, 20, 10) {
  sas_join(c); u64 size = 4096, room = size - 256; SPHLFLogger_t l = make(c, size, 0, false); u64 left = room - up(c.below(129)); while (left >= 16) { SPHLFLoggerHandle_t h; u64 n = std::min<u64>(left - 16, 4064); CHECK(SPHLFLoggerAllocTimeStamped(l, 9, 9, n, &h), "alloc", "leading entry"); finish((u64)h.entry, {STRIDE, 9, 9, 0, 1, 0}); left -= n + 16; }
  int T = (int)c.range(2, 5); u64 per = c.range(0, 3), len = c.range(1, 8) * 16; while (T * per * len + 128 >= room) len /= 2; c.log("%d threads reset a full logger and write %lu entries of %lu bytes each", T, per, len); u64 ok = 0; Ivals live; std::vector<std::function<void()>> fs;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { int rc = SPHLFLoggerResetIfFullSync(l); { sched::Quiet z; c.log("thread %d: reset %d", t, rc); CHECK(rc == 0 || rc == 1, "reset", "reset returned %d", rc); ok += rc == 0; CHECK(ok < 2, "reset", "the logger was reset twice"); }
    for (u64 i = 0; i < per; i++) { SPHLFLoggerHandle_t h; SPHLFLoggerHandle_t *r = SPHLFLoggerAllocTimeStamped(l, t, (int)i, len - 16, &h); sched::Quiet z; CHECK(r, "alloc", "no entry after the reset"); u64 a = (u64)h.entry; CHECK(!live.hits(a, len), "overlap", "an entry is handed out twice after the reset"); live.add(a, len); finish(a, {SIZED, t, (int)i, 0, 1, len - 16}); } });
  sched::run(c, fs); CHECK(ok == 1, "reset", "nobody reset the full logger"); u64 n = 0; SPHLFLogIterator_t it; SPHLFLoggerHandle_t h; CHECK(SPHLFLoggerCreateIterator(l, &it), "iterator", "no iterator"); while (n < T * per && SPHLFLoggerIteratorNext(&it, &h)) { CHECK(live.m.count((u64)h.entry), "delivery", "an entry nobody wrote"); n++; } CHECK(n == T * per && SPHLFLoggerFreeSpace(l) == room - n * len, "lost", "%lu of %lu entries are found, %lu bytes are free", n, T * per, SPHLFLoggerFreeSpace(l)); if (per) c.nontrivial();
}
#else
// free-running threads and processes
PBT_TEST_X(E02, stress, 1, NONDET, 60, 120) {
  sas_join(c); bool circ = c.chance(1, 2); int P = (int)c.range(1, 3), T = (int)c.range(P > 1 ? 1 : 2, 4); u64 per = c.range(20, 400), stride = up(c.range(32, 200)), N = per * P * T, size = 4096; if (!circ) while (size - 256 < N * 288 / (c.chance(1, 2) ? 1 : 3)) size *= 2; else while ((size - 256) / stride < (u64)P * T + 2) size *= 2; SPHLFLogger_t l = make(c, size, stride, circ); u64 slots = (size - 256) / stride, seed = c.bits64();
  c.log("%slogger of %lu bytes, stride %lu, %d processes of %d threads, %lu entries each", circ ? "circular " : "", size, stride, P, T, per);
  struct Rec { W x; int ok; }; Rec *rec = shared<Rec>(N); struct Sh { volatile u64 done, go, ticket; }; Sh *sh = shared<Sh>(1); struct A { Case *c; SPHLFLogger_t l; Rec *r; Sh *sh; u64 per, stride, seed, id0; bool circ; u64 lead; };
  auto body_ = [](void *p) -> void * { A &a = *(A *)p; Rng r(a.seed); while (!a.sh->go) sched_yield(); for (u64 i = 0; i < a.per; i++) { 
      Op o{a.circ ? STRIDE : (int)((i + a.seed) % 3), (int)r.below(4096), (int)r.below(256), 0, (int)r.below(4), r.below(240)}; SPHLFLoggerHandle_t h; Rec &q = a.r[i]; q.x.t0 = sphgettimer(); u64 e = request(a.l, false, o, h); q.x.t1 = sphgettimer(); q.x.at = e; q.x.len = length(o, a.stride); q.x.id = a.id0 + i; q.x.kind = o.kind; q.x.cat = o.cat; q.x.sub = o.sub; q.x.tid = gettid(); q.x.pid = getpid(); q.x.seq = i; if (!e) continue; head(e, q.x.len, o); body(q.x); finish(e, o); q.ok = 1; if (r.chance(1, 16)) sched_yield(); } __atomic_fetch_add(&a.sh->done, 1, __ATOMIC_SEQ_CST); return nullptr; };
  SASCleanUp(); std::vector<int> pids; for (int p = 0; p < P; p++) pids.push_back(c.start([&] { sas_join(c); std::vector<A> as(T); std::vector<pthread_t> th(T); for (int t = 0; t < T; t++) { u64 k = p * T + t; as[t] = {&c, l, rec + k * per, sh, per, stride, seed + k, k * per + 1, circ, 0}; pthread_create(&th[t], nullptr, body_, &as[t]); } __atomic_fetch_add(&sh->ticket, 1, __ATOMIC_SEQ_CST); if (p == 0) { while (sh->ticket < (u64)P) sched_yield(); sh->go = 1; } for (auto &t : th) pthread_join(t, nullptr); SASCleanUp(); }));
  for (int p : pids) c.wait(p); sas_join(c); std::map<u64, W *> by; u64 got = 0; std::vector<W *> w; for (u64 i = 0; i < N; i++) if (rec[i].ok) w.push_back(&rec[i].x), got++;
  if (!circ) { Ivals live; u64 asked = 0; for (u64 i = 0; i < N; i++) asked += rec[i].x.len; for (auto x : w) { CHECK(x->at >= (u64)l + 256 && x->at + x->len <= (u64)l + size, "bounds", "entry %lx", x->at); CHECK(!live.hits(x->at, x->len), "overlap", "two entries overlap at %lx", x->at); live.add(x->at, x->len); by[x->at] = x; }
    CHECK(got == N || asked > size - 256, "full", "%lu of %lu entries refused though %lu bytes fit into %lu", N - got, N, asked, size - 256); SPHLFLogIterator_t it; CHECK(SPHLFLoggerCreateIterator(l, &it), "iterator", "no iterator"); SPHLFLoggerHandle_t h; u64 n = 0; while (SPHLFLoggerIteratorNext(&it, &h)) { auto f = by.find((u64)h.entry); CHECK(f != by.end(), "delivery", "an entry nobody wrote at +%lx", (u64)h.entry - (u64)l); delivered(c, *f->second, h); n++; CHECK(n <= got, "delivery", "too many entries"); } CHECK(n == got, "lost", "%lu of %lu entries are found", n, got); }
  else { CHECK(got == N, "full", "a circular logger refused %lu entries", N - got); std::vector<u64> cnt(slots, 0); for (auto x : w) { u64 s = (x->at - (u64)l - 256) / stride; CHECK(s < slots && (x->at - (u64)l - 256) % stride == 0, "bounds", "entry at +%lx", x->at - (u64)l); cnt[s]++; } for (u64 s = 0; s < slots; s++) CHECK(cnt[s] == N / slots + (s < N % slots), "overlap", "slot %lu was handed out %lu times for %lu entries in %lu slots", s, cnt[s], N, slots); }
  for (u64 k = 0; k < (u64)P * T; k++) { u64 last = 0; for (u64 i = 0; !circ && i < per; i++) { W &x = rec[k * per + i].x; if (!rec[k * per + i].ok) continue; CHECK(x.at > last, "order", "entries of one writer are out of order"); last = x.at; } }
  c.count("entries", N); if (P * T > 1) c.nontrivial();
}
#endif
