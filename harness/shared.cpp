// A04: threads sharing one container through its locked interface, under generated schedules: some order of
// the operations that respects real time must explain every result and the final state.
#include "sas.h"
#include "sched_api.h"
#include <string>
#include <cstring>
using namespace pbt;
struct Op { int op; u64 k, v; u64 r, s, e; };
typedef std::vector<std::vector<Op>> Plan;
typedef std::vector<u64> St;                       // a state of the model
// search for an order
template <class F, class G> static bool explain(Plan &plan, St init, F apply, G fin) {
  size_t T = plan.size(); std::vector<u64> at(T, 0); std::set<St> dead;
  std::function<bool(const St &)> go = [&](const St &s) {
    bool end = true; for (size_t t = 0; t < T; t++) end &= at[t] == plan[t].size();
    if (end) return fin(s);
    St key = at; key.insert(key.end(), s.begin(), s.end()); if (!dead.insert(key).second) return false;
    for (size_t t = 0; t < T; t++) if (at[t] < plan[t].size()) { Op &o = plan[t][at[t]]; bool first = true;
      for (size_t q = 0; q < T && first; q++) if (q != t && at[q] < plan[q].size() && plan[q][at[q]].e < o.s) first = false;
      if (!first) continue;
      St w = s; if (!apply(w, o)) continue;
      at[t]++; if (go(w)) return true; at[t]--; }
    return false; };
  return go(init);
}
static void run(Case &c, Plan &plan, const std::function<u64(int, Op &)> &real, const std::function<std::string(Op &)> &show) {
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < plan.size(); t++) fs.push_back([&, t] { for (auto &o : plan[t]) { o.s = sched::steps(); o.r = real((int)t, o); o.e = sched::steps(); sched::Quiet z; c.log("thread %zu: %s -> %lx", t, show(o).c_str(), o.r); } });
  sched::run(c, fs, 6000000);
}
static Plan make(Case &c, const std::function<Op()> &gen, u64 most) { int T = (int)c.range(2, 3); Plan p(T); for (auto &x : p) { u64 n = c.range(1, most); for (u64 i = 0; i < n; i++) x.push_back(gen()); } return p; }
static std::string f(const char *fmt, u64 a, u64 b) { char x[80]; snprintf(x, sizeof x, fmt, a, b); return x; }

// ---- the two trees
static int width = 1;                              // words, or characters, of the keys of this case
struct Idx { typedef SASIndex_t T; static const int wmax = 14, wmany = 3; static T create(u64 n) { return SASIndexCreate(n); }
  static SASIndexKey_t *key(SASIndexKey_t *k, u64 i) { SASIndexKeyInitUInt64(k, i); if (width > 1) { for (int j = 0; j < width; j++) k->data[j] = j == width - 1 ? i : 7; k->compare_size = width * 8; k->copy_size = (char *)&k->data[width] - (char *)k; } return k; }
  static u64 op(T t, int o, u64 i, u64 v) { SASIndexKey_t k; key(&k, i); switch (o) { case 0: return SASIndexPut(t, &k, (void *)v) != 0; case 1: return (u64)SASIndexRemove(t, &k); case 2: return (u64)SASIndexGet(t, &k); case 3: return (u64)SASIndexReplace(t, &k, (void *)v); case 4: return SASIndexContainsKey(t, &k) != 0; case 5: return SASIndexIsEmpty(t) != 0; case 6: return SASIndexGetMinKey(t) != nullptr; default: return SASIndexGetMaxKey(t) != nullptr; } }
  static u64 count(T t) { u64 n = 0; SASIndexEnum_t e = SASIndexEnumCreate(t); while (SASIndexEnumHasMore(e)) { if (SASIndexEnumNext(e)) n++; } SASIndexEnumDestroy(e); return n; }
  typedef SASIndexEnum_t E; static E ec(T t) { return SASIndexEnumCreate(t); } static bool em(E e) { return SASIndexEnumHasMore(e); } static void *en(E e) { return SASIndexEnumNext(e); } static void ed(E e) { SASIndexEnumDestroy(e); } };
struct Str { typedef SASStringBTree_t T; static const int wmax = 200, wmany = 15; static T create(u64 n) { return SASStringBTreeCreate(n); }
  static u64 op(T t, int o, u64 i, u64 v) { char k[260]; snprintf(k, sizeof k, "key number %0*lu", 5 + width, i); switch (o) { case 0: return SASStringBTreePut(t, k, (void *)v) != 0; case 1: return (u64)SASStringBTreeRemove(t, k); case 2: return (u64)SASStringBTreeGet(t, k); case 3: return (u64)SASStringBTreeReplace(t, k, (void *)v); case 4: return SASStringBTreeContainsKey(t, k) != 0; case 5: return SASStringBTreeIsEmpty(t) != 0; case 6: return SASStringBTreeGetMinKey(t) != nullptr; default: return SASStringBTreeGetMaxKey(t) != nullptr; } }
  static u64 count(T t) { return SASStringBTreeGetCurCount(t); }
  typedef SASStringBTreeEnum_t E; static E ec(T t) { return SASStringBTreeEnumCreate(t); } static bool em(E e) { return SASStringBTreeEnumHasMore(e); } static void *en(E e) { return SASStringBTreeEnumNext(e); } static void ed(E e) { SASStringBTreeEnumDestroy(e); } };
static const char *tops[] = {"put %lx = %lx", "remove %lx", "get %lx", "replace %lx = %lx", "contains %lx", "is empty", "has minimum", "has maximum"};
template <class A> static void tree(Case &c) {
  // long keys spill (known finding of D05): only few of those
  sas_join(c); bool wide = c.rarely(1, 4); width = wide ? (int)c.range(1, A::wmax) : c.chance(1, 2) ? 1 : (int)c.range(1, A::wmany); auto t = A::create(c.chance(1, 2) ? 1 << 18 : 1 << 14); CHECK(t, "create", "no tree");
  // the keys shared are spread among others that stay; a few of them, or a range that reaches over several nodes
  bool few = c.chance(2, 3); u64 K = few ? c.range(1, 6) : c.range(4, 40), step = few ? 1 + c.below(60) : 1 + c.below(3), pre = c.chance(1, 3) ? 0 : wide ? c.below(30) : c.below(3) ? c.below(80) : c.below(400), val = 0x1000, at = few ? 0 : c.below(300); std::map<u64, u64> rest;
  auto key = [&](u64 i) { return at + (i + 1) * step * 2 + 1 - at % 2; }; for (u64 i = 0; i < pre; i++) { u64 k = (i * 37 % 401) * 2; if (rest.count(k)) continue; rest[k] = val += 16; CHECK(A::op(t, 0, k, val), "put", "key %lu refused", k); }
  St now(K, 0); u64 fill = c.below(3); for (u64 i = 0; i < K; i++) if (fill == 2 || (fill && c.chance(1, 2))) { now[i] = val += 16; CHECK(A::op(t, 0, key(i), val), "put", "key %lu refused", key(i)); }
  c.log("%zu other keys, %lu shared ones, width %d", rest.size(), K, width); bool others = !rest.empty(); u64 R = c.range(1, few ? 6 : 3), sw = 0;
  for (u64 r = 0; r < R; r++) {
    static const int w[] = {6, 6, 3, 3, 1, 1, 1, 1}; int k1 = c.chance(1, 2) ? -1 : c.weighted(w, 8), k2 = c.weighted(w, 8); u64 seq = few ? 0 : c.below(K); bool runs = !few && c.chance(1, 2);   // often only two kinds of operation
    Plan plan = make(c, [&] { Op o{}; o.op = k1 < 0 ? c.weighted(w, 8) : c.chance(1, 2) ? k1 : k2; o.k = runs ? seq++ % K : c.below(K); o.v = val += 16; return o; }, few ? c.thorough ? 6 : 4 : c.thorough ? 40 : 16); if (r) c.log("then");
    run(c, plan, [&](int, Op &o) { return A::op(t, o.op, key(o.k), o.v); }, [&](Op &o) { return f(tops[o.op], key(o.k), o.v); }); sw += sched::switches();
    St got(K, 0); for (u64 i = 0; i < K; i++) got[i] = A::op(t, 2, key(i), 0);
    bool ok = explain(plan, now, [&](St &s, Op &o) { u64 &x = s[o.k]; bool any = others; for (u64 y : s) any |= y != 0; switch (o.op) { case 0: if (x) return o.r == 0; x = o.v; return o.r == 1; case 1: { u64 p = x; x = 0; return o.r == p; } case 2: return o.r == x; case 3: { u64 p = x; if (x) x = o.v; return o.r == p; } case 4: return o.r == (x != 0); case 5: return o.r == !any; default: return o.r == any; } }, [&](const St &s) { return s == got; });
    CHECK(ok, "order", "no order of the operations explains the results and what is in the tree afterwards"); now = got;
    for (auto &x : rest) { u64 g = A::op(t, 2, x.first, 0); CHECK(g == x.second, "lost", "key %lu, which nobody touched, gives %lx instead of %lx", x.first, g, x.second); }
    u64 n = rest.size(); for (u64 g : now) n += g != 0; u64 cnt = A::count(t); CHECK(cnt == n, "count", "%lu entries, expected %lu", cnt, n); }
  RegionLists r; check_region(c, r); if (sw > 3) c.nontrivial();
}
PBT_TEST_X(A04, index_threads, 2, 0, 20, 10) { tree<Idx>(c); }
PBT_TEST_X(A04, string_threads, 2, 0, 20, 10) { tree<Str>(c); }
// one thread enumerates while others put and remove: what stays is delivered once and in order
template <class A> static void enums(Case &c) {
  sas_join(c); auto t = A::create(1 << 18); CHECK(t, "create", "no tree"); u64 n = c.range(1, c.chance(1, 2) ? 12 : 120), val = 0x1000; std::map<u64, u64> stay; for (u64 i = 0; i < n; i++) { stay[i * 2 + 1] = val += 16; } { std::vector<u64> ks; for (auto &x : stay) ks.push_back(x.first); for (u64 i = ks.size(); i-- > 1;) std::swap(ks[i], ks[(i * 7919) % (i + 1)]); for (u64 k : ks) CHECK(A::op(t, 0, k, stay[k]), "put", "key %lu refused", k); }
  std::map<u64, u64> byval; for (auto &x : stay) byval[x.second] = x.first; std::vector<Op> plan; u64 m = c.range(1, 10); for (u64 i = 0; i < m; i++) { Op o{}; o.op = (int)c.below(2); o.k = c.below(n + 1) * 2; o.v = val += 16; byval[o.v] = o.k; plan.push_back(o); } c.log("%lu keys stay", n);
  int E = (int)c.range(1, 2); std::vector<std::function<void()>> fs; for (int q = 0; q < E; q++) fs.push_back([&, q] { auto e = A::ec(t); std::set<u64> seen; u64 last = 0; bool have = false; u64 steps = 0; { sched::Quiet z; CHECK(e, "create", "no enumeration"); }
    for (;;) { if (!A::em(e)) break; void *v = A::en(e); sched::Quiet z; CHECK(steps++ < 2000, "endless", "the enumeration does not end"); if (!v) continue; auto it = byval.find((u64)v); CHECK(it != byval.end(), "value", "enumeration %d delivers %p, which was never stored", q, v); u64 k = it->second; CHECK(!have || last < k, "order", "enumeration %d goes from key %lu to key %lu", q, last, k); have = true; last = k; seen.insert(k); }
    A::ed(e); sched::Quiet z; for (auto &x : stay) CHECK(seen.count(x.first), "missed", "enumeration %d did not deliver key %lu, which was there all the time", q, x.first); });
  fs.push_back([&] { for (auto &o : plan) { u64 r = o.op ? A::op(t, 1, o.k, 0) : A::op(t, 0, o.k, o.v); sched::Quiet z; c.log("%s -> %lx", f(tops[o.op], o.k, o.v).c_str(), r); } });
  sched::run(c, fs, 6000000); for (auto &x : stay) { u64 g = A::op(t, 2, x.first, 0); CHECK(g == x.second, "lost", "key %lu gives %lx instead of %lx", x.first, g, x.second); } if (sched::switches() > 3) c.nontrivial();
}
PBT_TEST_X(A04, index_enum, 0.5, 0, 20, 10) { enums<Idx>(c); }
PBT_TEST_X(A04, string_enum, 0.5, 0, 20, 10) { enums<Str>(c); }
// ---- a naming context
PBT_TEST_X(A04, context_threads, 2, 0, 20, 10) {
  sas_join(c); SPHContext_t x = SPHContextCreate(1 << 16); CHECK(x, "create", "no context"); u64 N = c.range(1, 4), A = c.range(1, 4); auto name = [&](u64 i) { return "name " + std::to_string(i) + std::string(i * 9, 'x'); }; auto addr = [&](u64 a) { return (void *)(0x5000 + a * 24); };
  u64 other = c.chance(1, 2) ? 0 : c.below(60); for (u64 i = 0; i < other; i++) CHECK(SPHContextAddName(x, ("n" + std::to_string(i * 7919 % 1000)).c_str(), (void *)(0x9000 + i * 16)), "add", "other name %lu refused", i);
  St init(N, 0); u64 f0 = SPHContextFreeSpace(x); auto bytes = [&](const St &s) { u64 n = 0; for (u64 i = 0; i < N; i++) if (s[i]) n += (name(i).size() + 1 + 15) & ~15ull; return n; };
  for (u64 i = 0; i < N && i < A; i++) if (c.chance(1, 2)) { init[i] = i + 1; CHECK(SPHContextAddName(x, name(i).c_str(), addr(i)), "add", "name %lu refused", i); }
  static const char *ops[] = {"add %lx at %lx", "remove name %lx", "remove address of %lx: %lx", "find name %lx", "find address (%lx) %lx", "rename %lx", "free space"};
  u64 R = c.range(1, 6), sw = 0; for (u64 r = 0; r < R; r++) { static const int w[] = {6, 4, 3, 3, 2, 3, 1}; int k1 = c.chance(1, 2) ? -1 : c.weighted(w, 7), k2 = c.weighted(w, 7); if (r) c.log("then");
  Plan plan = make(c, [&] { Op o{}; o.op = k1 < 0 ? c.weighted(w, 7) : c.chance(1, 2) ? k1 : k2; o.k = c.below(N); o.v = c.below(A) + (o.op == 5 ? c.below(N) << 8 : 0); return o; }, c.thorough ? 6 : 4);
  run(c, plan, [&](int, Op &o) -> u64 { u64 a = o.v & 255, n2 = o.v >> 8; switch (o.op) { case 0: return SPHContextAddName(x, name(o.k).c_str(), addr(a)) != 0; case 1: return SPHContextRemoveByName(x, name(o.k).c_str()) == 0; case 2: return SPHContextRemoveByAddr(x, addr(a)) == 0; case 3: return (u64)SPHContextFindByName(x, name(o.k).c_str()); case 4: return SPHContextFindByAddr(x, addr(a)) != nullptr; case 5: return SPHContextRename(x, name(o.k).c_str(), name(n2).c_str(), addr(a)) != 0; default: return SPHContextFreeSpace(x); } }, [&](Op &o) { return f(ops[o.op], o.k, o.v); });
  sw += sched::switches(); St got(N, 0); for (u64 i = 0; i < N; i++) { u64 p = (u64)SPHContextFindByName(x, name(i).c_str()); got[i] = p ? (p - 0x5000) / 24 + 1 : 0; if (p) { char *s = (char *)SPHContextFindByAddr(x, (void *)p); CHECK(s && name(i) == s, "by-addr", "the address of \"%s\" has the name \"%s\"", name(i).c_str(), s ? s : "(null)"); } }
  bool ok = explain(plan, init, [&](St &s, Op &o) { u64 a = (o.v & 255) + 1, n2 = o.v >> 8; u64 who = N; for (u64 i = 0; i < N; i++) if (s[i] == a) who = i; switch (o.op) {
    case 0: if (s[o.k] || who < N) return o.r == 0; s[o.k] = a; return o.r == 1;
    case 1: { bool was = s[o.k]; s[o.k] = 0; return o.r == was; }
    case 2: if (who < N) s[who] = 0; return o.r == (who < N);
    case 3: return o.r == (s[o.k] ? 0x5000 + (s[o.k] - 1) * 24 : 0);
    case 4: return o.r == (who < N);
    case 5: if (s[o.k] != a || (n2 != o.k && s[n2])) return o.r == 0; s[o.k] = 0; s[n2] = a; return o.r == 1;
    default: return o.r == f0 - bytes(s); } }, [&](const St &s) { return s == got; });
  CHECK(ok, "order", "no order of the operations explains the results and the bindings afterwards");
  for (u64 a = 0; a < A; a++) { bool b = false; for (u64 g : got) b |= g == a + 1; CHECK((SPHContextFindByAddr(x, addr(a)) != nullptr) == b, "by-addr", "address %lu %s", a, b ? "has no name" : "still has a name"); }
  for (u64 i = 0; i < other; i++) CHECK((u64)SPHContextFindByName(x, ("n" + std::to_string(i * 7919 % 1000)).c_str()) == 0x9000 + i * 16, "lost", "name %lu, which nobody touched", i);
  CHECK(SPHContextFreeSpace(x) == f0 - bytes(got), "free-space", "%lx bytes free, expected %lx", SPHContextFreeSpace(x), f0 - bytes(got)); init = got; }
  if (sw > 3) c.nontrivial();
}
// ---- heaps: what is handed out belongs to one thread
struct Owned { Case &c; Ivals all; u64 tag = 0; struct P { u64 a, n, tag; }; Owned(Case &c) : c(c) {}
  void take(int t, u64 a, u64 n, bool fillit = true) { sched::Quiet z; Ival w; CHECK(!all.hits(a, n, &w), "overlap", "thread %d gets %lx+%lx, but %lx+%lx is in use", t, a, n, w.a, w.n); all.add(a, n); }
  void drop(u64 a) { sched::Quiet z; all.del(a); } };
PBT_TEST_X(A04, heap_threads, 2, 0, 20, 10) {
  sas_join(c); RegionLists r0; r0.load(); u64 u0 = RegionLists::sum(r0.used); int kind = (int)c.below(5); u64 size = kind >= 3 ? 1 << 16 : 1 << 15; SASSimpleHeap_t h = nullptr; SASSimpleStack_t s = nullptr; SASCompoundHeap_t ch = nullptr; SASStringBTree_t st = nullptr; u64 page = 4096;
  // 0 a simple heap, 1 a stack, 2 pages of a fixed compound heap, 3 of an expanding one, 4 of a string tree
  if (kind == 0) h = SASSimpleHeapCreate(size); else if (kind == 1) s = SASSimpleStackCreate(size); else if (kind == 2) ch = SASCompoundFixedHeapCreate(size); else if (kind == 3) ch = SASCompoundHeapCreatePageSize(size, page = 4096); else st = SASStringBTreeCreate(size); CHECK(h || s || ch || st, "create", "nothing"); bool paged = ch || st;
  auto space = [&]() -> u64 { return h ? SASSimpleHeapFreeSpace(h) : s ? SASSimpleStackFreeSpace(s) : st ? SASStringBTreeFreeSpace(st) : SASCompoundHeapFreeSpace(ch); }; u64 f0 = space(), lo = (u64)(h ? (void *)h : s ? (void *)s : st ? (void *)st : (void *)ch); bool pcq = (kind == 2 || kind == 3) && c.rarely(1, 3); bool expanding = kind >= 3;
  auto alloc = [&](u64 n) -> void * { return h ? SASSimpleHeapAlloc(h, n) : s ? SASSimpleStackAlloc(s, n) : st ? (void *)SASStringBTreeAlloc(st) : pcq ? (void *)SPHCompoundPCQAlloc(ch) : (void *)SASCompoundHeapAlloc(ch); };
  auto near = [&](u64 o, u64 n) -> void * { void *p = (void *)o; return h ? SASSimpleHeapNearAlloc(p, n) : s ? SASSimpleStackNearAlloc(p, n) : st ? (void *)SASStringBTreeNearAlloc(p) : pcq ? (void *)SPHCompoundPCQNearAlloc(p) : (void *)SASCompoundHeapNearAlloc(p); };
  auto give = [&](u64 a, u64 n, bool nr) { void *p = (void *)a; if (h) { if (nr) SASSimpleHeapNearDealloc(p, n); else SASSimpleHeapFree(h, p, n); } else if (st) { if (nr) SASStringBTreeNearDealloc(p); else SASStringBTreeFree(st, (SASStringBTreeNode_t)p); } else if (pcq) SPHCompoundPCQFree(ch, (SPHSinglePCQueue_t)p); else { if (nr) SASCompoundHeapNearDealloc(p); else SASCompoundHeapFree(ch, (SASSimpleHeap_t)p); } };
  // what stays allocated meanwhile
  Owned own(c); u64 pre = c.chance(1, 2) ? 0 : c.below(expanding ? 40 : 6), used = 0; for (u64 i = 0; i < pre; i++) { u64 n = paged ? page : 16 * c.range(1, 20); void *p = alloc(n); if (!p) break; own.all.add((u64)p, n); used += n; }
  c.log("kind %d, %lx free", kind, f0 - used); std::vector<std::vector<Owned::P>> mine(3); u64 nearobj = own.all.m.empty() ? lo : std::next(own.all.m.begin(), c.below(own.all.m.size()))->first, R = c.range(1, 5), sw = 0, now = f0 - used;
  for (u64 r = 0; r < R; r++) {
    // op 0 alloc, 1 free one of the own, 2 report, 3 near allocation, 5 near free
    static const int w[] = {5, 4, 1, 2, 0, 2}; int k1 = c.chance(1, 2) ? -1 : c.weighted(w, 6), k2 = c.weighted(w, 6); if (r) c.log("then");
    Plan plan = make(c, [&] { Op o{}; o.op = k1 < 0 ? c.weighted(w, 6) : c.chance(1, 2) ? k1 : k2; if (kind == 1 && (o.op == 1 || o.op == 5)) o.op = 0; o.k = paged ? page : 16 * c.range(1, 40); o.v = c.below(8); return o; }, c.thorough ? 8 : 5);
    run(c, plan, [&](int t, Op &o) -> u64 { auto &M = mine[t]; if (o.op == 2) return space();
      if (o.op == 1 || o.op == 5) { if (M.empty()) { o.op = 4; return 0; } auto p = M[o.v % M.size()]; M.erase(M.begin() + o.v % M.size()); o.k = p.n; { sched::Quiet z; long d = check_fill((void *)(p.a + (paged ? 512 : 0)), paged ? 256 : p.n, p.tag); CHECK(d < 0, "contents", "thread %d: its piece %lx+%lx changed at +%ld", t, p.a, p.n, d); } own.drop(p.a); give(p.a, p.n, o.op == 5); return p.a; }
      void *p = o.op == 0 ? alloc(o.k) : near(nearobj, o.k); if (!p) return 0; own.take(t, (u64)p, o.k); sched::Quiet z; u64 tg = own.tag += 7; if (paged) { CHECK((u64)p % page == 0, "align", "page at %p", p); fill((char *)p + 512, 256, tg); } else fill(p, o.k, tg); M.push_back({(u64)p, o.k, tg}); return (u64)p; }, [&](Op &o) { return f(o.op == 0 ? "alloc %lx" : o.op == 1 ? "free %lx" : o.op == 5 ? "near free %lx" : o.op == 2 ? "free space" : o.op == 3 ? "near alloc %lx" : "nothing", o.k, 0); }); sw += sched::switches();
    u64 fin = space(); St init = {now};
    if (!expanding) { bool ok = explain(plan, init, [&](St &q, Op &o) { switch (o.op) { case 0: case 3: if (!o.r) return h ? q[0] < 4 * o.k + 1024 || q[0] < f0 / 2 : q[0] < o.k || (ch && o.op == 3); if (q[0] < o.k) return false; q[0] -= o.k; return true; case 1: case 5: q[0] += o.k; return true; case 2: return o.r == q[0]; default: return true; } }, [&](const St &q) { return q[0] == fin; }); CHECK(ok, "order", "no order of the operations explains the results and the final free space %lx", fin); now = fin; }
    else for (auto &p : plan) for (auto &o : p) if (o.op == 0) CHECK(o.r, "alloc-null", "an expanding heap refused a page");
    for (auto &M : mine) for (auto &p : M) { long d = check_fill((void *)(p.a + (paged ? 512 : 0)), paged ? 256 : p.n, p.tag); CHECK(d < 0, "contents", "piece %lx+%lx changed at +%ld", p.a, p.n, d); } }
  // everything given back
  if (!s) { for (auto &M : mine) for (auto &p : M) { give(p.a, p.n, p.tag & 1); own.all.del(p.a); } for (auto &x : own.all.m) give(x.first, x.second, false);
    if (!expanding) CHECK(space() == f0, "lost", "after everything was freed %lx bytes are free, initially %lx", space(), f0); else { RegionLists r; r.load(); u64 e = (RegionLists::sum(r.used) - u0) / size, sp = space(); CHECK(sp == e * f0, "lost", "after everything was freed %lx bytes are free, in %lu blocks with %lx each", sp, e, f0); }
    if (h) CHECK(SASSimpleHeapEmpty(h), "empty", "the heap is not empty"); }
  RegionLists r; check_region(c, r); if (sw > 3) c.nontrivial();
}
// a stack, with pieces given back: the stack pointer is the whole state
PBT_TEST_X(A04, stack_threads, 1, 0, 20, 10) {
  sas_join(c); SASSimpleStack_t s = SASSimpleStackCreate(c.chance(1, 2) ? 8192 : 16384); CHECK(s, "create", "no stack"); u64 f0 = SASSimpleStackFreeSpace(s), lo = (u64)SASSimpleStackAlloc(s, 16), unit = SASSimpleStackFreeSpace(s); CHECK(lo && unit < f0, "alloc", "no first piece"); u64 gran = f0 - unit; St now = {lo + gran}; u64 end = lo + f0, R = c.range(1, 8), sw = 0;
  for (u64 r = 0; r < R; r++) { static const int w[] = {6, 3, 4, 2}; Plan plan = make(c, [&] { Op o{}; o.op = c.weighted(w, 4); o.k = o.op == 2 ? lo + gran * c.below(40) : o.op == 3 ? 0 : c.rarely(1, 6) ? c.range(1, 12000) : c.range(1, 600); return o; }, c.thorough ? 8 : 4); if (r) c.log("then");
    run(c, plan, [&](int, Op &o) -> u64 { switch (o.op) { case 0: return (u64)SASSimpleStackAlloc(s, o.k); case 1: return (u64)SASSimpleStackNearAlloc((void *)lo, o.k); case 2: return (u64)SASSimpleStackDealloc(s, (void *)o.k); default: return SASSimpleStackFreeSpace(s); } }, [&](Op &o) { return f(o.op == 0 ? "push %lx" : o.op == 1 ? "push near %lx" : o.op == 2 ? "pop to %lx" : "free space", o.k, 0); }); sw += sched::switches();
    St fin = {end - SASSimpleStackFreeSpace(s)};
    bool ok = explain(plan, now, [&](St &q, Op &o) { switch (o.op) { case 0: case 1: { u64 n = (o.k + gran - 1) / gran * gran; if (n > end - q[0]) return o.r == 0; if (o.r != q[0]) return false; q[0] += n; return true; } case 2: if (o.k > end) return o.r != 0; q[0] = o.k; return o.r == 0; default: return o.r == end - q[0]; } }, [&](const St &q) { return q == fin; });
    CHECK(ok, "order", "no order of the operations explains the results and the stack pointer %lx afterwards", fin[0]); now = fin; }
  if (sw > 3) c.nontrivial();
}
// project contexts: one context per name, whoever sets it up first
PBT_TEST_X(A04, project_threads, 1, 0, 20, 10) {
  sas_join(c); u64 N = c.range(1, 4), R = c.range(1, 4), sw = 0; auto name = [&](u64 i) { return "project " + std::to_string(i); }; St now(N, 0); RegionLists r0; u64 fresh = 0; for (u64 i = 0; i < N; i++) if (c.chance(1, 3)) now[i] = (u64)SPHSetupAltProjectContext(name(i).c_str()); (void)fresh;
  for (u64 r = 0; r < R; r++) { static const int w[] = {6, 3, 2, 4}; std::set<u64> made; Plan plan = make(c, [&] { Op o{}; o.op = c.weighted(w, 4); o.k = c.below(N); return o; }, c.thorough ? 6 : 4); if (r) c.log("then");
    run(c, plan, [&](int, Op &o) -> u64 { switch (o.op) { case 0: return (u64)SPHSetupProjectContext(name(o.k).c_str()); case 1: return (u64)SPHSetupAltProjectContext(name(o.k).c_str()); case 2: return SPHDestroyProjectContext(name(o.k).c_str()); default: return (u64)getProjectContextByName(name(o.k).c_str()); } }, [&](Op &o) { return f(o.op == 0 ? "set up %lx" : o.op == 1 ? "set up alternative %lx" : o.op == 2 ? "destroy %lx" : "find %lx", o.k, 0); }); sw += sched::switches();
    St got(N, 0); for (u64 i = 0; i < N; i++) got[i] = (u64)getProjectContextByName(name(i).c_str());
    bool ok = explain(plan, now, [&](St &s, Op &o) { u64 &x = s[o.k]; switch (o.op) { case 0: case 1: if (x) return o.r == x; for (u64 y : s) if (y == o.r) return false; x = o.r; return o.r != 0; case 2: { bool was = x; x = 0; return (o.r == 0) == was; } default: return o.r == x; } }, [&](const St &s) { return s == got; });
    CHECK(ok, "order", "no order of the operations explains the contexts returned and found afterwards"); now = got; }
  for (u64 i = 0; i < N; i++) if (now[i]) { SPHContext_t x = (SPHContext_t)now[i]; CHECK(SPHContextAddName(x, "n", (void *)(0x1000 + i * 16)) && SPHContextFindByName(x, "n") == (void *)(0x1000 + i * 16), "usable", "the context of project %lu takes no name", i); }
  RegionLists r; check_region(c, r); if (sw > 3) c.nontrivial();
}
// ---- the region itself
PBT_TEST_X(A04, region_threads, 2, 0, 20, 10) {
  sas_join(c); RegionLists r; r.load(); u64 used0 = RegionLists::sum(r.used), have0 = r.avail(); (void)have0; int T = (int)c.range(2, 4); struct B { int op; u64 n; u64 pick; }; std::vector<std::vector<B>> plan(T); for (auto &p : plan) { u64 n = c.range(1, c.thorough ? 10 : 6); for (u64 i = 0; i < n; i++) { static const int w[] = {6, 4, 1, 1}; B b; b.op = c.weighted(w, 4); b.n = 4096ull << (c.rarely(1, 8) ? 16 : c.below(4)); b.pick = c.below(8); p.push_back(b); } }
  u64 pre = c.below(5); std::vector<Owned::P> old; Owned own(c); for (u64 i = 0; i < pre; i++) { u64 n = 4096ull << c.below(4); u64 a = (u64)SASBlockAlloc(n); CHECK(a, "alloc", "no block"); own.all.add(a, n); old.push_back({a, n, 0}); } std::vector<std::vector<Owned::P>> mine(T); std::vector<std::function<void()>> fs;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { auto &M = mine[t]; for (auto &b : plan[t]) { if (b.op == 0 || (b.op == 1 && M.empty())) { u64 a = (u64)SASBlockAlloc(b.n); own.take(t, a, b.n); sched::Quiet z; CHECK(a && a % b.n == 0, "alloc", "thread %d: block of %lx -> %lx", t, b.n, a); u64 tg = own.tag += 5; fill((void *)a, 512, tg); M.push_back({a, b.n, tg}); c.log("thread %d: block %lx+%lx", t, a, b.n); }
      else if (b.op == 1) { auto p = M[b.pick % M.size()]; M.erase(M.begin() + b.pick % M.size()); { sched::Quiet z; CHECK(check_fill((void *)p.a, 512, p.tag) < 0, "contents", "thread %d: block %lx changed", t, p.a); c.log("thread %d: frees %lx+%lx", t, p.a, p.n); } own.drop(p.a); SASBlockDealloc((void *)p.a, p.n); }
      else if (b.op == 2) { std::vector<Ival> u; RegionLists::get(SASListInUseMem, u); sched::Quiet z; for (auto &p : M) CHECK(covered(u, p.a, p.n), "in-use", "thread %d: its block %lx+%lx is not listed as in use", t, p.a, p.n); }
      else { SASSimpleHeap_t h = SASSimpleHeapCreate(b.n > 65536 ? 65536 : b.n); { sched::Quiet z; CHECK(h, "create", "no heap"); } own.take(t, (u64)h, b.n > 65536 ? 65536 : b.n); void *p = SASSimpleHeapAlloc(h, 64); { sched::Quiet z; CHECK(p, "alloc", "no piece in a new heap"); } own.drop((u64)h); SASSimpleHeapDestroy(h); } } });
  sched::run(c, fs, 6000000); u64 mineb = 0; for (auto &M : mine) for (auto &p : M) { CHECK(check_fill((void *)p.a, 512, p.tag) < 0, "contents", "block %lx changed", p.a); mineb += p.n; } for (auto &p : old) mineb += p.n; check_region(c, r); u64 u = RegionLists::sum(r.used); CHECK(u == used0 + mineb, "conserve", "%lx bytes in use, expected %lx", u, used0 + mineb);
  for (auto &M : mine) for (auto &p : M) { CHECK(covered(r.used, p.a, p.n), "in-use", "live block %lx+%lx is not listed as in use", p.a, p.n); SASBlockDealloc((void *)p.a, p.n); } for (auto &p : old) SASBlockDealloc((void *)p.a, p.n); check_region(c, r); CHECK(RegionLists::sum(r.used) == used0, "conserve", "%lx bytes in use, initially %lx", RegionLists::sum(r.used), used0); if (sched::switches() > 3) c.nontrivial();
}
