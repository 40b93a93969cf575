// D01 binary-key index, D02 string B-tree, D03 enumeration, D04 keys, D05 memory of trees
#include "sas.h"
#include <cmath>
#include <string>
using namespace pbt;

// ---------------------------------------------------------------- adaptors
struct IdxKey { std::vector<u64> w; bool operator<(const IdxKey &o) const { return w < o.w; } bool operator==(const IdxKey &o) const { return w == o.w; } };
struct RawKey { SASIndexKey_t k; RawKey(const IdxKey &x) { memset(&k, 0xEE, sizeof k); k.compare_size = x.w.size() * 8; k.copy_size = 8 + x.w.size() * 8; for (size_t i = 0; i < x.w.size(); i++) k.data[i] = x.w[i]; } };

struct Index {
  typedef IdxKey Key; typedef SASIndex_t T; typedef SASIndexEnum_t E;
  static const char *name() { return "index"; }
  static T create(u64 n) { return SASIndexCreate(n); }
  static T createPS(u64 n, u64 p) { return SASIndexCreatePageSize(n, p); }
  static T fixed(u64 n) { return SASIndexFixedCreate(n); }
  static T expand(T t) { return SASIndexExpandCreate(t); }
  static T init(void *b, u64 n, u64 p, int e) { return SASIndexInit(b, n, p, e); }
  static void destroy(T t) { SASIndexDestroy(t); }
  static int put(T t, const Key &k, void *v, bool nl) { RawKey r(k); int rc = nl ? SASIndexPut_nolock(t, &r.k, v) : SASIndexPut(t, &r.k, v); return rc; }
  static void *get(T t, const Key &k, bool nl) { RawKey r(k); return nl ? SASIndexGet_nolock(t, &r.k) : SASIndexGet(t, &r.k); }
  static int has(T t, const Key &k, bool nl) { RawKey r(k); return nl ? SASIndexContainsKey_nolock(t, &r.k) : SASIndexContainsKey(t, &r.k); }
  static void *replace(T t, const Key &k, void *v, bool nl) { RawKey r(k); return nl ? SASIndexReplace_nolock(t, &r.k, v) : SASIndexReplace(t, &r.k, v); }
  static void *remove(T t, const Key &k, bool nl) { RawKey r(k); return nl ? SASIndexRemove_nolock(t, &r.k) : SASIndexRemove(t, &r.k); }
  static bool minmax(T t, bool mx, bool nl, Key &out) { SASIndexKey_t *k = mx ? nl ? SASIndexGetMaxKey_nolock(t) : SASIndexGetMaxKey(t) : nl ? SASIndexGetMinKey_nolock(t) : SASIndexGetMinKey(t);
    if (!k) return false; out.w.assign(k->data, k->data + std::min<u64>(15, k->compare_size / 8)); return true; }
  static int empty(T t, bool nl) { return nl ? SASIndexIsEmpty_nolock(t) : SASIndexIsEmpty(t); }
  static long count(T) { return -1; }
  static long mod(T t, bool nl) { return nl ? SASIndexGetModCount_nolock(t) : SASIndexGetModCount(t); }
  static u64 freespace(T t) { return SASIndexFreeSpace(t); }
  static u64 allocsize(T t) { return SASIndexAllocSize(t); }
  static E ecreate(T t) { return SASIndexEnumCreate(t); }
  static void edestroy(E e) { SASIndexEnumDestroy(e); }
  static int emore(E e) { return SASIndexEnumHasMore(e); }
  static void *enext(E e, bool nl) { return nl ? SASIndexEnumNext_nolock(e) : SASIndexEnumNext(e); }
  static bool fits(const Key &) { return true; }
  static u64 bytes(const Key &k) { return 8 + 8 * k.w.size(); }
  static std::string show(const Key &k) { std::string s; char b[40]; for (auto x : k.w) { snprintf(b, sizeof b, "%s%lx", s.empty() ? "" : ".", x); s += b; if (s.size() > 60) break; } return s; }
};
struct Str {
  typedef std::string Key; typedef SASStringBTree_t T; typedef SASStringBTreeEnum_t E;
  static const char *name() { return "string"; }
  static T create(u64 n) { return SASStringBTreeCreate(n); }
  static T createPS(u64 n, u64 p) { return SASStringBTreeCreatePageSize(n, p); }
  static T fixed(u64 n) { return SASStringBTreeFixedCreate(n); }
  static T expand(T t) { return SASStringBTreeExpandCreate(t); }
  static T init(void *b, u64 n, u64 p, int e) { return SASStringBTreeInit(b, n, p, e); }
  static void destroy(T t) { SASStringBTreeDestroy(t); }
  static int put(T t, const Key &k, void *v, bool nl) { return nl ? SASStringBTreePut_nolock(t, k.c_str(), v) : SASStringBTreePut(t, k.c_str(), v); }
  static void *get(T t, const Key &k, bool nl) { return nl ? SASStringBTreeGet_nolock(t, k.c_str()) : SASStringBTreeGet(t, k.c_str()); }
  static int has(T t, const Key &k, bool nl) { return nl ? SASStringBTreeContainsKey_nolock(t, k.c_str()) : SASStringBTreeContainsKey(t, k.c_str()); }
  static void *replace(T t, const Key &k, void *v, bool nl) { return nl ? SASStringBTreeReplace_nolock(t, k.c_str(), v) : SASStringBTreeReplace(t, k.c_str(), v); }
  static void *remove(T t, const Key &k, bool nl) { return nl ? SASStringBTreeRemove_nolock(t, k.c_str()) : SASStringBTreeRemove(t, k.c_str()); }
  static bool minmax(T t, bool mx, bool nl, Key &out) { char *k = mx ? nl ? SASStringBTreeGetMaxKey_nolock(t) : SASStringBTreeGetMaxKey(t) : nl ? SASStringBTreeGetMinKey_nolock(t) : SASStringBTreeGetMinKey(t);
    if (!k) return false; out = k; return true; }
  static int empty(T t, bool nl) { return nl ? SASStringBTreeIsEmpty_nolock(t) : SASStringBTreeIsEmpty(t); }
  static long count(T t) { return SASStringBTreeGetCurCount(t); }
  static long mod(T t, bool nl) { return nl ? SASStringBTreeGetModCount_nolock(t) : SASStringBTreeGetModCount(t); }
  static u64 freespace(T t) { return SASStringBTreeFreeSpace(t); }
  static u64 allocsize(T t) { return SASStringBTreeAllocSize(t); }
  static E ecreate(T t) { return SASStringBTreeEnumCreate(t); }
  static void edestroy(E e) { SASStringBTreeEnumDestroy(e); }
  static int emore(E e) { return SASStringBTreeEnumHasMore(e); }
  static void *enext(E e, bool nl) { return nl ? SASStringBTreeEnumNext_nolock(e) : SASStringBTreeEnumNext(e); }
  static bool fits(const Key &k) { return k.size() < 512; }
  static u64 bytes(const Key &k) { return (k.size() + 1 + 15) & ~15ull; }
  static std::string show(const Key &k) { std::string s; for (unsigned char ch : k) { if (ch > 32 && ch < 127) s += ch; else { char b[8]; snprintf(b, 8, "\\%02x", ch); s += b; } if (s.size() > 60) { s += ".."; break; } } return "\"" + s + "\""; }
};

// ---------------------------------------------------------------- key universes: number -> key (injective)
template <class A> struct Universe;
static u64 mixu(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
template <> struct Universe<Index> {
  int kind; int words; u64 n;
  void gen(Case &c, u64 maxn) { kind = (int)c.below(6); words = 1; n = maxn; if (kind == 4) words = 2 + (int)c.below(3); if (kind == 5) words = 2 + (int)c.below(14);
    c.log("universe: kind %d, %d words, %lu keys", kind, words, n); }
  IdxKey key(u64 i) const { IdxKey k;
    switch (kind) {
      case 0: k.w = {i}; break;                                   // small integers, 0 included
      case 1: k.w = {mixu(i + 1)}; break;                         // all over the 64-bit range
      case 2: k.w = {(i - n / 2)}; break;                         // around zero, wrapping: 0xffff.. and 0
      case 3: { SASIndexKey_t r; SASIndexKeyInitDouble(&r, ((double)(long)(i - n / 2)) * 1.5); k.w = {r.data[0]}; break; }
      case 4: { k.w.assign(words, 7); k.w[words - 1] = i % 16; k.w[words - 2] = i / 16 ; break; }   // shared prefixes
      default: { for (int j = 0; j < words; j++) k.w.push_back(j < words - 1 && (mixu(i / 4 + j) & 3) ? (i >> 3) % 2 : mixu(i + j)); k.w[words - 1] = i; }
    }
    return k; }
};
template <> struct Universe<Str> {
  int kind; u64 n; int pad;
  void gen(Case &c, u64 maxn) { kind = (int)c.below(7); n = maxn; pad = (int)c.below(40); c.log("universe: kind %d, %lu keys, pad %d", kind, n, pad); }
  std::string key(u64 i) const { char b[64];
    switch (kind) {
      case 0: snprintf(b, sizeof b, "k%05lu", i); return b;
      case 1: snprintf(b, sizeof b, "%lx", mixu(i + 1)); return b;
      case 2: { std::string s; u64 x = i; while (x) { s += (char)(1 + x % 255); x /= 255; } return s; }      // "" and every byte value
      case 3: { std::string s; u64 x = i; while (x) { s += "ab"[x & 1]; x >>= 1; } return s; }               // prefixes of each other
      case 4: { snprintf(b, sizeof b, "%lu", i); return std::string(pad, 'p') + b; }
      case 5: { snprintf(b, sizeof b, "%lu", i); std::string s = b; s += std::string(mixu(i) % 48, '\xf0'); return s; }
      default: { snprintf(b, sizeof b, "%lu", i); u64 l = mixu(i) % 8 ? mixu(i + 9) % 200 : mixu(i + 9) % 700; std::string s(l, 'a' + i % 3); return s + b; }   // long, also beyond the limit
    } }
};

struct Budget { u64 bytes; };

template <class A> struct Model {
  typedef typename A::Key K;
  std::map<K, u64> m; u64 next = 0x1000; typename A::T t; const Universe<A> *u; bool nl; u64 page;
  u64 val() { return next += 16; }
};

template <class A> static void check_small(Case &c, Model<A> &M) {
  typename A::Key k; bool nl = c.chance(1, 2);
  for (int mx = 0; mx < 2; mx++) {
    bool got = A::minmax(M.t, mx, nl, k);
    CHECK(got == !M.m.empty(), "minmax", "%s key is %s, tree has %zu entries", mx ? "max" : "min", got ? "present" : "NULL", M.m.size());
    if (got) { const typename A::Key &e = mx ? M.m.rbegin()->first : M.m.begin()->first; CHECK(k == e, mx ? "max" : "min", "%s key is %s, expected %s", mx ? "max" : "min", A::show(k).c_str(), A::show(e).c_str()); }
  }
  int e = A::empty(M.t, nl); CHECK((e != 0) == M.m.empty(), "empty", "IsEmpty = %d with %zu entries", e, M.m.size());
  long n = A::count(M.t); if (n != -1) CHECK(n == (long)M.m.size(), "count", "count = %ld, history gives %zu", n, M.m.size());
}
template <class A> static void check_key(Case &c, Model<A> &M, const typename A::Key &k) {
  auto it = M.m.find(k); bool nl = (M.next >> 4) & 1;
  void *v = A::get(M.t, k, nl); void *e = it == M.m.end() ? nullptr : (void *)it->second;
  CHECK(v == e, "get", "get(%s) = %p, expected %p", A::show(k).c_str(), v, e);
  int h = A::has(M.t, k, nl); CHECK((h != 0) == (e != nullptr), "contains", "contains(%s) = %d, expected %d", A::show(k).c_str(), h, e != nullptr);
}
template <class A> static void op(Case &c, Model<A> &M, int what, u64 i, bool log) {
  typename A::Key k = M.u->key(i % M.u->n); auto it = M.m.find(k); bool nl = (i ^ (M.next >> 4)) & 1;
  long mod0 = A::mod(M.t, nl);
  if (what == 0) { void *v = (void *)M.val(); int r = A::put(M.t, k, v, nl); if (log) c.log("put %s -> %d", A::show(k).c_str(), r);
    if (r == 0 && it == M.m.end() && !A::fits(k)) return;
    CHECK((r != 0) == (it == M.m.end()), "put", "put(%s) = %d but the key was %s", A::show(k).c_str(), r, it == M.m.end() ? "absent" : "present");
    if (r) { M.m[k] = (u64)v; CHECK(A::mod(M.t, nl) != mod0, "modcount", "put did not change the modification count"); } }
  else if (what == 1) { void *v = (void *)M.val(); void *r = A::replace(M.t, k, v, nl); if (log) c.log("replace %s -> %p", A::show(k).c_str(), r);
    void *e = it == M.m.end() ? nullptr : (void *)it->second; CHECK(r == e, "replace", "replace(%s) = %p, expected %p", A::show(k).c_str(), r, e);
    if (e) it->second = (u64)v; }
  else { void *r = A::remove(M.t, k, nl); if (log) c.log("remove %s -> %p", A::show(k).c_str(), r); void *e = it == M.m.end() ? nullptr : (void *)it->second;
    CHECK(r == e, "remove", "remove(%s) = %p, expected %p", A::show(k).c_str(), r, e);
    if (e) { M.m.erase(it); CHECK(A::mod(M.t, nl) != mod0, "modcount", "remove did not change the modification count"); } }
}
// which number the j-th element of a bulk has
static u64 order(int pat, u64 start, u64 j, u64 cnt) { switch (pat) { case 0: return start + j; case 1: return start + (cnt - 1 - j); case 2: return start + (j & 1 ? cnt - 1 - j / 2 : j / 2); default: return mixu(start * 1000003 + j); } }

// builds a tree by a random history; the model follows
template <class A> static void history(Case &c, Model<A> &M, u64 bytecap, int maxops, bool spill = false) {
  int nphase = (int)c.range(1, maxops); const u64 U = M.u->n; u64 big = 0; for (u64 i = 0; i < U; i++) big = std::max<u64>(big, A::bytes(M.u->key(i)));
  // keys beyond 32 bytes go through the 15 spill pages of a block: known finding spill-area, stay far below it
  u64 cap = (big <= 32 || spill ? bytecap : 20000) / (big + 16); if (cap < 4) cap = 4;
  for (int ph = 0; ph < nphase; ph++) {
    int k = (int)c.below(10);
    if (k < 6) {                                       // single operations
      int n = (int)c.range(1, 12); bool few = c.chance(1, 2);
      for (int j = 0; j < n; j++) { static const int w[] = {4, 2, 3}; int what = c.weighted(w, 3);
        if (what == 0 && M.m.size() >= cap) what = 2;
        u64 i = few ? c.below(std::min<u64>(U, 12)) : c.below(U);
        if (what == 2 && !few && !M.m.empty() && c.chance(1, 2)) { // aim at an extreme or at an existing key
          auto it = c.chance(1, 2) ? M.m.begin() : std::prev(M.m.end()); typename A::Key kk = it->first; u64 e = it->second; void *r = A::remove(M.t, kk, false); c.log("remove extreme %s -> %p", A::show(kk).c_str(), r);
          CHECK(r == (void *)e, "remove", "remove(%s) = %p, expected %lx", A::show(kk).c_str(), r, e); M.m.erase(it); check_small(c, M); continue; }
        op(c, M, what, i, true); check_small(c, M); }
    } else {                                           // bulk
      int what = k < 9 ? 0 : 2; if (M.m.size() > cap * 3 / 4) what = 2; if (what == 0 && c.rarely(1, 6)) what = 1;
      int pat = (int)c.below(4); u64 start = c.below(U), cnt = 1 + c.below(c.chance(1, 2) ? 70 : c.chance(1, 2) ? 400 : 3000);
      c.log("bulk %s x%lu pattern %d from %lu", what == 0 ? "put" : what == 1 ? "replace" : "remove", cnt, pat, start);
      for (u64 j = 0; j < cnt; j++) { if (what == 0 && M.m.size() >= cap) break; op(c, M, what, order(pat, start, j, cnt), false); if ((j & 31) == 31) check_small(c, M); }
      check_small(c, M);
    }
    for (int j = 0; j < 4; j++) check_key(c, M, M.u->key(c.below(U)));
  }
}
template <class A> static void check_all(Case &c, Model<A> &M) {
  for (u64 i = 0; i < M.u->n; i++) check_key(c, M, M.u->key(i));
  check_small(c, M);
}
static u64 gen_universe_size(Case &c) { static const u64 n[] = {12, 90, 300, 2500, 6000}; return n[c.below(c.thorough ? 5 : 5)]; }

template <class A> static void treemap(Case &c) {
  sas_join(c); if (c.chance(1, 2)) { sasClearOnDealloc = 0; }
  // the memory the tree gets may have been used before
  if (c.chance(1, 2)) { void *b[8]; for (auto &x : b) { x = SASBlockAlloc(1 << 20); memset(x, 0xA5, 1 << 20); } for (auto x : b) SASBlockDealloc(x, 1 << 20); c.log("recycled memory"); }
  Universe<A> u; u.gen(c, gen_universe_size(c));
  Model<A> M; M.u = &u; M.page = 4096; u64 size = 1ull << (16 + c.below(5));
  if (c.rarely(1, 3)) { M.page = 8192ull << c.below(4); while (size < 4 * M.page) size *= 2; M.t = A::createPS(size, M.page); } else M.t = A::create(size);
  CHECK(M.t, "create", "create(%lx) = NULL", size); c.log("%s of %lx, pages of %lx", A::name(), size, M.page);
  CHECK(A::empty(M.t, false), "empty", "a new tree is not empty"); check_small(c, M);
  history(c, M, 200000, c.thorough ? 40 : 16);
  check_all(c, M); c.count("entries", M.m.size());
  if (M.m.size() > 5) c.nontrivial();
  if (c.chance(1, 2)) {                                // take everything out again
    int pat = (int)c.below(4); std::vector<typename A::Key> ks; for (auto &x : M.m) ks.push_back(x.first);
    if (pat == 1) std::reverse(ks.begin(), ks.end()); if (pat >= 2) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[mixu(i * 31 + pat) % i]);
    c.log("remove everything, pattern %d", pat); size_t n = 0;
    for (auto &k : ks) { void *r = A::remove(M.t, k, n & 1), *e = (void *)M.m[k]; CHECK(r == e, "remove", "remove(%s) = %p, expected %p", A::show(k).c_str(), r, e); M.m.erase(k); if (++n % 16 == 0) check_small(c, M); if (n % 257 == 0) check_all(c, M); }
    check_all(c, M); op(c, M, 0, 3, true); check_small(c, M); check_key(c, M, u.key(3));
  }
}
PBT_TEST(D01, index, 1) { treemap<Index>(c); }
PBT_TEST(D02, stringtree, 1) { treemap<Str>(c); }

// ---------------------------------------------------------------- D03 enumeration
template <class A> static void *cur(typename A::E) { return nullptr; }
static const char *cur_key(SASStringBTreeEnum_t e) { return SASStringBTreeEnumCurrent(e); }
template <class A> static void enumerate(Case &c, Model<A> &M, bool nl) {
  typename A::E e = A::ecreate(M.t); CHECK(e, "enum", "enumeration of a valid tree could not be created");
  u64 n = 0; u64 total = M.m.size();
  for (auto &x : M.m) {
    if constexpr (std::is_same<A, Str>::value) { long k = SASStringBTreeEnumCount(e); CHECK(k == (long)(total - n), "enum-count", "enumeration reports %ld entries left, %lu are", k, total - n); }
    CHECK(A::emore(e), "enum-end", "enumeration ended after %lu of %lu entries", n, total);
    void *v = A::enext(e, nl); CHECK(v == (void *)x.second, "enum-order", "entry %lu of the enumeration has value %p, expected %p (key %s)", n, v, (void *)x.second, A::show(x.first).c_str());
    if constexpr (std::is_same<A, Str>::value) { const char *k = cur_key(e); CHECK(k && x.first == k, "enum-key", "entry %lu has key %s, expected %s", n, k ? A::show(k).c_str() : "NULL", A::show(x.first).c_str()); }
    n++;
  }
  CHECK(!A::emore(e), "enum-extra", "enumeration claims more than the %lu entries", total);
  CHECK(A::enext(e, nl) == nullptr, "enum-extra", "enumeration delivered more than the %lu entries", total);
  if constexpr (std::is_same<A, Str>::value) { long k = SASStringBTreeEnumCount(e); CHECK(k == 0, "enum-count", "finished enumeration reports %ld entries left", k); }
  A::edestroy(e);
}
// enumeration while the tree changes: every entry present throughout is seen exactly once, in order
template <class A> static void enumerate_changing(Case &c, Model<A> &M, bool nl) {
  typename A::E e = A::ecreate(M.t); std::set<typename A::Key> deleted, added; std::map<u64, typename A::Key> byval; for (auto &x : M.m) byval[x.second] = x.first;
  std::map<typename A::Key, u64> before = M.m; std::set<typename A::Key> seen; typename A::Key last; bool have = false; u64 steps = 0;
  while (A::emore(e) && steps++ < 20000) {
    if (c.rarely(1, 4)) { int what = c.chance(1, 2) ? 2 : 0; u64 i;
      if (what == 2 && have && c.chance(1, 2)) { // remove the current entry
        auto it = M.m.find(last); if (it != M.m.end()) { A::remove(M.t, last, nl); deleted.insert(last); M.m.erase(it); c.log("remove current"); } }
      else { i = c.below(M.u->n); typename A::Key k = M.u->key(i); bool was = M.m.count(k); op(c, M, what, i, true); if (what == 2 && was) deleted.insert(k); if (what == 0 && !was && M.m.count(k)) { added.insert(k); byval[M.m[k]] = k; } }
      if (M.m.empty()) break; }
    void *v = A::enext(e, nl);
    if (!v) { continue; }
    auto it = byval.find((u64)v); CHECK(it != byval.end(), "enum-change", "enumeration delivered unknown value %p", v); typename A::Key k = it->second;
    CHECK(M.m.count(k), "enum-change", "enumeration delivered removed key %s", A::show(k).c_str());
    CHECK(!have || last < k, "enum-change", "enumeration went from %s back to %s", A::show(last).c_str(), A::show(k).c_str());
    last = k; have = true; seen.insert(k);
  }
  CHECK(steps < 20000, "enum-change", "enumeration does not end");
  for (auto &x : before) if (!deleted.count(x.first)) CHECK(seen.count(x.first), "enum-change", "enumeration missed %s, which was in the tree all the time", A::show(x.first).c_str());
  A::edestroy(e);
}
template <class A> static void treeenum(Case &c) {
  sas_join(c); Universe<A> u; static const u64 n[] = {12, 90, 300, 2500}; u.gen(c, n[c.below(4)]);
  Model<A> M; M.u = &u; M.t = A::create(1 << 18); CHECK(M.t, "create", "create"); 
  int rounds = (int)c.range(1, 3);
  for (int r = 0; r < rounds; r++) { history(c, M, 150000, 5); c.log("enumerate %zu entries", M.m.size()); enumerate(c, M, c.chance(1, 2)); if (M.m.size() > 3) c.nontrivial();
    if constexpr (std::is_same<A, Str>::value) {
      for (int s = 0; s < 3; s++) {
        std::string st = c.chance(2, 3) ? u.key(c.below(u.n)) : u.key(c.below(u.n)) + (char)(1 + c.below(255)); if (c.rarely(1, 4) && !st.empty()) st.pop_back();
        if (c.rarely(1, 5) && !M.m.empty()) st = c.chance(1, 2) ? M.m.begin()->first : M.m.rbegin()->first;
        c.log("start at %s", A::show(st).c_str());
        SASStringBTreeEnum_t e = SASStringBTreeEnumCreateStartAt(M.t, (char *)st.c_str()); auto it = M.m.lower_bound(st); bool nl = c.chance(1, 2);
        if (it == M.m.end()) { CHECK(!e || !SASStringBTreeEnumHasMore(e), "start", "an enumeration starting after the maximum has entries"); if (e) SASStringBTreeEnumDestroy(e); continue; }
        CHECK(e, "start", "enumeration starting at %s (max %s) could not be created", A::show(st).c_str(), A::show(M.m.rbegin()->first).c_str());
        for (; it != M.m.end(); ++it) { CHECK(SASStringBTreeEnumHasMore(e), "start", "ended before %s", A::show(it->first).c_str()); void *v = A::enext(e, nl); CHECK(v == (void *)it->second, "start", "enumeration from %s delivered %p instead of entry %s", A::show(st).c_str(), v, A::show(it->first).c_str());
          CHECK(it->first == cur_key(e), "start", "key %s", cur_key(e)); }
        CHECK(!SASStringBTreeEnumHasMore(e), "start", "claims more after the last entry"); SASStringBTreeEnumDestroy(e);
      }
    }
    if (c.chance(1, 2) && !M.m.empty()) enumerate_changing(c, M, c.chance(1, 2));
  }
}
PBT_TEST(D03, index, 1) { treeenum<Index>(c); }
PBT_TEST(D03, stringtree, 1) { treeenum<Str>(c); }

// ---------------------------------------------------------------- D04 keys
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static double gen_double(Case &c) { double d; switch (c.below(6)) {
  case 0: return (double)(long)(c.below(21)) - 10; case 1: return 0.0; case 2: return -0.0;
  case 3: { u64 b = c.bits64(); memcpy(&d, &b, 8); return std::isnan(d) ? 1.25 : d; }
  case 4: { static const double v[] = {INFINITY, -INFINITY, 5e-324, -5e-324, 2.2250738585072014e-308, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308}; return v[c.below(8)]; }
  default: { u64 b = (c.below(1 << 20) << 44) | c.below(4); memcpy(&d, &b, 8); return std::isnan(d) ? -3.5 : d; } } }
PBT_TEST_X(D04, roundtrip, 1, NOSTORE, 10, 5) {
  for (int i = 0; i < 200; i++) {
    SASIndexKey_t a, b; memset(&a, 0x5A, sizeof a); memset(&b, 0xA5, sizeof b); u64 x = c.bits64(), y = c.rarely(1, 3) ? x : c.chance(1, 2) ? x + c.below(5) - 2 : c.bits64();
    if (i < 8) c.log("one-word keys %lx and %lx", x, y); SASIndexKeyInitUInt64(&a, x); SASIndexKeyInitUInt64(&b, y); CHECK(SASIndexKeyReturn1stUInt64(&a) == x, "u64", "%lx read back as %llx", x, SASIndexKeyReturn1stUInt64(&a));
    CHECK(sgn(SASIndexKeyCompare(&a, &b)) == (x < y ? -1 : x > y), "u64-order", "compare(%lx,%lx) = %d", x, y, SASIndexKeyCompare(&a, &b));
    CHECK(SASIndexKeySize(&a) >= 8 + 8, "size", "key size %zu", SASIndexKeySize(&a));
    long s = (long)x, t = (long)y; SASIndexKeyInitInt64(&a, s); SASIndexKeyInitInt64(&b, t); CHECK(SASIndexKeyReturn1stInt64(&a) == s, "i64", "%ld read back as %lld", s, SASIndexKeyReturn1stInt64(&a));
    CHECK(sgn(SASIndexKeyCompare(&a, &b)) == (s < t ? -1 : s > t), "i64-order", "compare(%ld,%ld) = %d", s, t, SASIndexKeyCompare(&a, &b));
    double d = gen_double(c), e = c.rarely(1, 4) ? d : gen_double(c); if (c.rarely(1, 6)) e = std::nextafter(d, c.chance(1, 2) ? INFINITY : -INFINITY);
    SASIndexKeyInitDouble(&a, d); SASIndexKeyInitDouble(&b, e); double rd = SASIndexKeyReturn1stDouble(&a); CHECK(rd == d, "double", "%g read back as %g", d, rd);
    CHECK(sgn(SASIndexKeyCompare(&a, &b)) == (d < e ? -1 : d > e), "double-order", "compare(%.17g,%.17g) = %d", d, e, SASIndexKeyCompare(&a, &b));
    SASIndexKeyInitRef(&a, (void *)x); SASIndexKeyInitRef(&b, (void *)y); CHECK(SASIndexKeyReturn1stUInt64(&a) == x, "ref", "%lx read back as %llx", x, SASIndexKeyReturn1stUInt64(&a));
    CHECK(sgn(SASIndexKeyCompare(&a, &b)) == (x < y ? -1 : x > y), "ref-order", "compare(%lx,%lx) = %d", x, y, SASIndexKeyCompare(&a, &b));
    SASIndexKey_t k; memset(&k, 0x77, sizeof k); SASIndexKeyCopy(&k, &a); CHECK(SASIndexKeyCompare(&k, &a) == 0 && SASIndexKeyReturn1stUInt64(&k) == x, "copy", "a copied key differs"); CHECK(k.data[1] == 0x7777777777777777ull, "copy", "copying wrote beyond the key");
  }
  c.nontrivial();
}
static IdxKey gen_tuple(Case &c, int maxw) { IdxKey k; int n = (int)c.range(1, maxw); for (int i = 0; i < n; i++) k.w.push_back(c.chance(1, 2) ? c.below(3) : c.chance(1, 2) ? c.below(3) << (8 * c.below(8)) : c.bits64()); return k; }
PBT_TEST_X(D04, order, 1, NOSTORE, 10, 5) {
  for (int i = 0; i < 120; i++) {
    IdxKey a = gen_tuple(c, 4), b = gen_tuple(c, 4), d = gen_tuple(c, 4); if (c.rarely(1, 8)) { a = gen_tuple(c, 15); b = a; }
    if (c.rarely(1, 4)) { b = a; if (c.chance(1, 2)) b.w.back() ^= c.below(3); else if (b.w.size() < 15) b.w.push_back(c.below(2)); }
    RawKey A(a), B(b), D(d); int ab = sgn(SASIndexKeyCompare(&A.k, &B.k)), ba = sgn(SASIndexKeyCompare(&B.k, &A.k)), bd = sgn(SASIndexKeyCompare(&B.k, &D.k)), ad = sgn(SASIndexKeyCompare(&A.k, &D.k));
    auto S = [](const IdxKey &k) { return Index::show(k); };
    if (i < 6) c.log("%s, %s, %s: compare %d, %d, %d", S(a).c_str(), S(b).c_str(), S(d).c_str(), ab, bd, ad);
    CHECK(SASIndexKeyCompare(&A.k, &A.k) == 0, "reflexive", "compare(%s, itself) != 0", S(a).c_str());
    CHECK(ab == -ba, "antisymmetric", "compare(%s,%s) = %d but the other way %d", S(a).c_str(), S(b).c_str(), ab, ba);
    CHECK((ab == 0) == (a == b), "equal", "compare(%s,%s) = %d", S(a).c_str(), S(b).c_str(), ab);
    if (a.w.size() == b.w.size()) CHECK(ab == (a < b ? -1 : b < a), "natural", "compare(%s,%s) = %d, the order of the words is different", S(a).c_str(), S(b).c_str(), ab);
    if (ab <= 0 && bd <= 0) CHECK(ad <= 0 && (ad < 0 || (ab == 0 && bd == 0)), "transitive", "%s <= %s <= %s but compare of the first and last is %d", S(a).c_str(), S(b).c_str(), S(d).c_str(), ad);
    if (ab >= 0 && bd >= 0) CHECK(ad >= 0, "transitive", "%s >= %s >= %s but compare of the first and last is %d", S(a).c_str(), S(b).c_str(), S(d).c_str(), ad);
  }
  c.nontrivial();
}

// ---------------------------------------------------------------- D05 memory of trees
template <class A> struct ShortKeys { static void gen(Case &c, Universe<A> &u, u64 n); static void medium(Case &c, Universe<A> &u); };
template <> void ShortKeys<Index>::gen(Case &c, Universe<Index> &u, u64 n) { u.kind = (int)c.below(5); u.n = n; u.words = u.kind == 4 ? 2 + (int)c.below(2) : 1; c.log("universe: kind %d, %d words, %lu keys", u.kind, u.words, n); }
template <> void ShortKeys<Str>::gen(Case &c, Universe<Str> &u, u64 n) { u.kind = (int)c.below(5); if (u.kind == 1) u.kind = 0; u.n = n; u.pad = (int)c.below(19); if (u.pad > 10) u.pad += 5; /* one rounded size: mixing sizes fragments nodes into the spill area */ c.log("universe: kind %d, %lu keys, pad %d", u.kind, n, u.pad); }
template <> void ShortKeys<Index>::medium(Case &c, Universe<Index> &u) { u.kind = 5; u.words = 4 + (int)c.below(4); c.log("medium keys: %d words", u.words); }
template <> void ShortKeys<Str>::medium(Case &c, Universe<Str> &u) { u.kind = 4; u.pad = 30 + (int)c.below(26); c.log("medium keys: pad %d", u.pad); }
static u64 used() { static RegionLists r; r.load(); return RegionLists::sum(r.used); }
// put that may be refused for lack of room; false if it was
template <class A> static bool try_put(Case &c, Model<A> &M, u64 i, u64 freebytes) {
  typename A::Key k = M.u->key(i % M.u->n); void *v = (void *)M.val(); bool nl = i & 1; int r = A::put(M.t, k, v, nl);
  if (M.m.count(k)) { CHECK(!r, "put", "put(%s) accepted although the key is there", A::show(k).c_str()); return true; }
  if (r) M.m[k] = (u64)v; else { freebytes = A::freespace(M.t); CHECK(freebytes < 12 * M.page, "full", "put(%s) was refused with %lu free pages and %zu entries", A::show(k).c_str(), freebytes / M.page, M.m.size()); }
  return r != 0;
}
template <class A> static void fixedtree(Case &c) {
  sas_join(c); if (c.chance(1, 2)) sasClearOnDealloc = 0;
  u64 size = 1ull << (13 + c.below(6)); Universe<A> u; ShortKeys<A>::gen(c, u, 20000); Model<A> M; M.u = &u; M.page = 4096;
  void *nb0 = nullptr;
  if (c.chance(1, 2)) M.t = A::fixed(size); else { void *b = SASBlockAlloc(size); CHECK(b, "create", "block"); fill(b, size, 3); if (c.rarely(1, 3)) { M.page = 8192ull << c.below(3); while (size < 4 * M.page) M.page /= 2; if (M.page < 4096) M.page = 4096; } M.t = A::init(b, size, M.page, 0); }
  CHECK(M.t, "create", "fixed %s of %lx could not be created", A::name(), size); nb0 = SASBlockAlloc(size); CHECK(nb0, "create", "block"); fill(nb0, size, 9);
  u64 us = used(), f0 = A::freespace(M.t); c.log("fixed %s of %lx, %lx free", A::name(), size, f0);
  CHECK(f0 <= size - M.page && f0 + 2 * M.page >= size, "free-space", "a fresh tree of %lx reports %lx free", size, f0);
  CHECK(A::allocsize(M.t) == M.page, "page-size", "page size %lx", A::allocsize(M.t));
  u64 firstN = 0; bool firstDone = false; int rounds = (int)c.range(1, 4); int pat0 = (int)c.below(4); u64 st0 = c.below(20000);
  for (int r = 0; r < rounds; r++) {
    bool same = r > 0 && c.chance(1, 2); int pat = same ? pat0 : r ? (int)c.below(4) : pat0; u64 st = same ? st0 : r ? c.below(20000) : st0; bool wasEmpty = M.m.empty();
    // fill until refused
    u64 refused = 0, j = 0, lim = size / 4096 * 70 + 200; u64 room = f0;
    for (; j < lim && refused < 8; j++) { if (j % 16 == 0 || refused) room = A::freespace(M.t); u64 have = M.m.size(); if (!try_put(c, M, order(pat, st, j, lim), room)) refused++; else if (refused == 0 && M.m.size() > have && wasEmpty && (!firstDone)) firstN = M.m.size(); }
    c.log("filled: %zu entries, pattern %d from %lu, %lu refused, %lx free", M.m.size(), pat, st, refused, A::freespace(M.t)); if (refused) { c.nontrivial(); c.count("filled to refusal"); }
    if (wasEmpty && refused) { if (!firstDone) { firstDone = true; } else if (same) { u64 n = M.m.size(); CHECK(n >= firstN, "capacity", "an emptied tree takes %lu entries, the fresh one took %lu of the same sequence", n, firstN); } }
    check_small(c, M); for (int q = 0; q < 300; q++) check_key(c, M, u.key(c.below(u.n)));
    CHECK(used() == us, "fixed-region", "the fixed tree changed the region's memory in use from %lx to %lx", us, used());
    // take out some or all
    std::vector<typename A::Key> ks; for (auto &x : M.m) ks.push_back(x.first); int rp = (int)c.below(4); if (rp == 1) std::reverse(ks.begin(), ks.end()); if (rp >= 2) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[mixu(i * 31 + rp) % i]);
    u64 out = c.chance(1, 2) ? ks.size() : c.below(ks.size() + 1); c.log("remove %lu of %zu, pattern %d", out, ks.size(), rp);
    for (u64 i = 0; i < out; i++) { void *g = A::remove(M.t, ks[i], i & 1), *e = (void *)M.m[ks[i]]; CHECK(g == e, "remove", "remove(%s) = %p, expected %p", A::show(ks[i]).c_str(), g, e); M.m.erase(ks[i]); if (i % 64 == 0) check_small(c, M); }
    for (auto &x : M.m) check_key(c, M, x.first);
    check_small(c, M);
    if (M.m.empty()) { u64 f = A::freespace(M.t); CHECK(f == f0, "free-space", "the emptied tree reports %lx free, fresh it was %lx", f, f0); }
  }
  CHECK(check_fill(nb0, size, 9) < 0, "neighbour", "the tree wrote into the block after its own");
  A::destroy(M.t); u64 u2 = used(); CHECK(u2 == us - size, "destroy", "destroying the tree left %lx in use, expected %lx", u2, us - size);
}
PBT_TEST(D05, fixedindex, 1) { fixedtree<Index>(c); }
PBT_TEST(D05, fixedstring, 1) { fixedtree<Str>(c); }
template <class A> static void expandtree(Case &c) {
  sas_join(c); if (c.chance(1, 2)) sasClearOnDealloc = 0; static RegionLists r0, r1; check_region(c, r0); u64 us = used();
  u64 size = 1ull << (13 + c.below(6)); Universe<A> u; ShortKeys<A>::gen(c, u, 6000); int n = (int)c.range(1, 3); std::vector<Model<A>> Ms(n); u64 expansions = 0;
  // medium keys go through the spill pages; the pages of a block of up to 64K cannot need more than the 15 a block may have
  bool spill = c.rarely(1, 3); if (spill) { ShortKeys<A>::medium(c, u); if (size > 65536) size = 65536; }
  u64 page = 4096; if (!spill && c.rarely(1, 3)) { page = 8192ull << c.below(3); while (size < 4 * page) size *= 2; }
  for (auto &M : Ms) { M.u = &u; M.page = page; M.t = page == 4096 ? A::create(size) : A::createPS(size, page); CHECK(M.t, "create", "create"); }
  CHECK(used() == us + n * size, "create", "creating %d trees of %lx took %lx", n, size, used() - us);
  int rounds = (int)c.range(1, 4);
  for (int r = 0; r < rounds; r++) for (auto &M : Ms) { u64 b0 = used(), e0 = M.m.size();
    if (c.rarely(1, 4)) { u64 f = A::freespace(M.t); void *x = A::expand(M.t); CHECK(x && used() == b0 + size, "expand", "expanding by hand gave %p and took %lx", x, used() - b0); u64 g = A::freespace(M.t); CHECK(g - f == size - page, "expand", "an expansion of %lx added %lx of free pages of %lx", size, g - f, page); c.log("expanded by hand"); }
    history(c, M, 150000, 4, spill); u64 d = used() - b0;
    CHECK(d % size == 0, "expansion", "memory in use changed by %lx, not by whole expansions of %lx", d, size); expansions += d / size;
    u64 f = A::freespace(M.t); (void)e0; CHECK(f % page == 0, "free-space", "free space %lx is not a number of pages", f); }
  u64 tot = used() - us; CHECK(tot == (n + expansions) * size, "expansion", "%d trees with %lu expansions hold %lx", n, expansions, tot); if (expansions) { c.nontrivial(); c.count("expanded"); }
  for (int i = 0; i < n; i++) { for (u64 q = 0; q < u.n; q += 7) check_key(c, Ms[i], u.key(q)); A::destroy(Ms[i].t); for (int k = i + 1; k < n; k++) { check_small(c, Ms[k]); for (u64 q = 0; q < u.n; q += 61) check_key(c, Ms[k], u.key(q)); } }
  CHECK(used() == us, "destroy", "after destroying every tree %lx is in use, before them %lx was", used(), us);
  check_region(c, r1);
}
PBT_TEST(D05, expandindex, 1) { expandtree<Index>(c); }
PBT_TEST(D05, expandstring, 1) { expandtree<Str>(c); }
// pages taken from a string tree by hand
PBT_TEST(D05, pages, 0.6) {
  sas_join(c); static RegionLists r; u64 us = used(); u64 size = 1ull << (14 + c.below(4)); bool fx = c.chance(1, 2); SASStringBTree_t t = fx ? SASStringBTreeFixedCreate(size) : SASStringBTreeCreate(size); CHECK(t, "create", "create");
  u64 per = size / 4096 - 1; u64 blocks = 1; std::map<u64, u64> pg; u64 tag = 1; int n = (int)c.range(1, 120); u64 most = 0; c.log("%s tree of %lx", fx ? "fixed" : "expanding", size);
  auto free_ = [&] { u64 f = c.chance(1, 2) ? SASStringBTreeFreeSpace(t) : SASStringBTreeFreeSpaceNoLock(t); CHECK(f == (blocks * per - pg.size()) * 4096, "free-space", "%lx free with %lu blocks of %lu pages and %zu pages out", f, blocks, per, pg.size()); };
  free_();
  for (int i = 0; i < n; i++) {
    u64 k = c.below(5);
    if (c.rarely(1, 25) && blocks < 40) { u64 b = used(); void *x = SASStringBTreeExpandCreate(t); c.log("expand -> %p", x); CHECK((x != nullptr) == !fx, "expand", "expanding a %s tree by hand gave %p", fx ? "fixed" : "expanding", x); if (x) blocks++; CHECK(used() == b + (x ? size : 0), "expand", "an expansion took %lx", used() - b); free_(); }
    if (k < 3) { void *p; u64 near = 0;
      if (k == 2 && !pg.empty()) { near = std::next(pg.begin(), c.below(pg.size()))->first + c.below(4096); p = c.chance(1, 2) ? SASStringBTreeNearAlloc((void *)near) : SASStringBTreeNearAllocNoLock((void *)near); c.log("near alloc -> %p", p); }
      else { p = c.chance(1, 2) ? SASStringBTreeAlloc(t) : SASStringBTreeAllocNoLock(t); c.log("alloc -> %p", p); }
      if (!p) { CHECK(fx && pg.size() == per, "alloc", "a page was refused with %zu of %lu pages out (%s tree)", pg.size(), blocks * per, fx ? "fixed" : "expanding"); continue; }
      u64 a = (u64)p; CHECK((a & 4095) == 0 && !pg.count(a), "alloc", "page %p is misaligned or already out", p);
      u64 nb = (used() - us) / size; CHECK(nb == blocks || (nb == blocks + 1 && !fx && pg.size() * 2 >= blocks * per), "expansion", "%lu blocks of %lu pages became %lu with %zu pages out", blocks, per, nb, pg.size()); blocks = nb; if (fx) CHECK(a > (u64)t && a < (u64)t + size, "alloc", "page %p outside the tree", p);
      fill((char *)p + 3000, 1096, ++tag); pg[a] = tag; most = std::max<u64>(most, pg.size());
    } else if (!pg.empty()) { auto it = std::next(pg.begin(), c.below(pg.size())); void *p = (void *)it->first; CHECK(check_fill((char *)p + 3000, 1096, it->second) < 0, "page", "the contents of page %p changed", p);
      switch (c.below(4)) { case 0: SASStringBTreeFree(t, p); break; case 1: SASStringBTreeFreeNoLock(t, p); break; case 2: SASStringBTreeNearDealloc(p); break; default: SASStringBTreeNearDeallocNoLock(p); } c.log("free %p", p); pg.erase(it); }
    free_();
  }
  for (auto &x : pg) CHECK(check_fill((void *)(x.first + 3000), 1096, x.second) < 0, "page", "the contents of page %lx changed", x.first);
  CHECK(used() == us + blocks * size, "region", "%lx in use, expected %lx", used() - us, blocks * size); if (most > per || (fx && most == per)) c.nontrivial();
  if (c.chance(1, 2)) SASStringBTreeDestroy(t); else SASStringBTreeDestroyNoLock(t); CHECK(used() == us, "destroy", "destroy left %lx in use", used() - us); check_region(c, r);
}
// known findings
PBT_PROBE(D05, spill_area) { sas_join(c); SASIndex_t t = SASIndexCreate(1 << 20); c.log("an index of 1M takes 2000 keys of 12 words");
  IdxKey k; k.w.assign(12, 5); for (u64 i = 0; i < 2000; i++) { k.w[11] = i; RawKey r(k); if (!SASIndexPut(t, &r.k, (void *)(i + 1))) c.fail("put", "put of key %lu of 12 words failed", i); }
  for (u64 i = 0; i < 2000; i++) { k.w[11] = i; RawKey r(k); if (SASIndexRemove(t, &r.k) != (void *)(i + 1)) c.fail("remove", "remove of key %lu of 12 words failed", i); } c.pass(); }
// every call gives back its locks
PBT_TEST(A04, index_calls, 1) { switch (c.below(4)) { case 0: treemap<Index>(c); break; case 1: treeenum<Index>(c); break; case 2: fixedtree<Index>(c); break; default: expandtree<Index>(c); } }
PBT_TEST(A04, string_calls, 1) { switch (c.below(4)) { case 0: treemap<Str>(c); break; case 1: treeenum<Str>(c); break; case 2: fixedtree<Str>(c); break; default: expandtree<Str>(c); } }

// ---------------------------------------------------------------- D07: the nodes of the trees, used directly
struct StrN {
  typedef Str A; typedef std::string Key; typedef SASStringBTreeNode_t N; typedef SBTnodePosRef R; enum { TYPE = SAS_RUNTIME_STRINGBTREENODE };
  static int count(N n) { return SASStringBTreeNodeGetCount(n); }
  static bool key(N n, int p, Key &k) { char *s = SASStringBTreeNodeGetKeyIndexed(n, p); if (s) k = s; return s; }
  static N branch(N n, int p) { return SASStringBTreeNodeGetBranchIndexed(n, p); }
  static void *val(N n, int p) { return SASStringBTreeNodeGetValIndexed(n, p); }
  static void *putval(N n, int p, void *v) { return SASStringBTreeNodePutValIndexed(n, p, v); }
  static int search(int kind, N n, const Key &k, R *r) { const char *s = k.c_str(); switch (kind) { case 0: return SASStringBTreeNodeSearch(n, s, r); case 1: return SASStringBTreeNodeSearchGT(n, s, r); case 2: return SASStringBTreeNodeSearchGE(n, s, r); case 3: return SASStringBTreeNodeSearchLT(n, s, r); default: return SASStringBTreeNodeSearchLE(n, s, r); } }
  static void initialize(N n, const Key &k, void *v, int l) { SASStringBTreeNodeInitialize(n, k.c_str(), v, l); }
  static N insert(N n, const Key &k, void *v, int l) { return SASStringBTreeNodeInsert(n, k.c_str(), v, l); }
  static N del(N n, const Key &k, int l) { return SASStringBTreeNodeDelete(n, k.c_str(), l); }
  static N create(u64 s) { return SASStringBTreeNodeCreate(s); }
  static N init(void *b, u64 s) { return SASStringBTreeNodeInit(b, SAS_RUNTIME_STRINGBTREENODE, s); }
  static void destroy(N n, int how) { if (how == 2) SASStringBTreeNodeDestroyNoLock(n); else SASStringBTreeNodeDestroy(n, how); }
  static u64 freespace(N n, int how) { return how == 2 ? SASStringBTreeNodeFreeSpaceNoLock(n) : SASStringBTreeNodeFreeSpace(n, how); }
  static u64 frags(N n) { return SASStringBTreeNodeFreeFragmentsNoLock(n); }
  static u64 maxfrag(N n) { return SASStringBTreeNodeMaxFragmentNoLock(n); }
  static void *alloc(N n, u64 s, int how) { return how == 2 ? SASStringBTreeNodeAllocNoLock(n, s) : SASStringBTreeNodeAlloc(n, s, how); }
  static void *nearalloc(void *p, u64 s, int l) { return SASStringBTreeNodeNearAlloc(p, s, l); }
  static int free_(N n, void *p, u64 s, int how) { return how == 2 ? SASStringBTreeNodeFreeNoLock(n, p, s) : SASStringBTreeNodeFree(n, p, s, how); }
};
struct IdxN {
  typedef Index A; typedef IdxKey Key; typedef SASIndexNode_t N; typedef IDXnodePosRef R; enum { TYPE = SAS_RUNTIME_INDEXNODE };
  static int count(N n) { return SASIndexNodeGetCount(n); }
  static bool key(N n, int p, Key &k) { SASIndexKey_t *s = SASIndexNodeGetKeyIndexed(n, p); if (s) k.w.assign(s->data, s->data + std::min<u64>(15, s->compare_size / 8)); return s; }
  static N branch(N n, int p) { return SASIndexNodeGetBranchIndexed(n, p); }
  static void *val(N n, int p) { return SASIndexNodeGetValIndexed(n, p); }
  static void *putval(N n, int p, void *v) { return SASIndexNodePutValIndexed(n, p, v); }
  static int search(int kind, N n, const Key &k, R *r) { RawKey s(k); switch (kind) { case 0: return SASIndexNodeSearch(n, &s.k, r); case 1: return SASIndexNodeSearchGT(n, &s.k, r); case 2: return SASIndexNodeSearchGE(n, &s.k, r); case 3: return SASIndexNodeSearchLT(n, &s.k, r); default: return SASIndexNodeSearchLE(n, &s.k, r); } }
  static void initialize(N n, const Key &k, void *v, int l) { RawKey s(k); SASIndexNodeInitialize(n, &s.k, v, l); }
  static N insert(N n, const Key &k, void *v, int l) { RawKey s(k); return SASIndexNodeInsert(n, &s.k, v, l); }
  static N del(N n, const Key &k, int l) { RawKey s(k); return SASIndexNodeDelete(n, &s.k, l); }
  static N create(u64 s) { return SASIndexNodeCreate(s); }
  static N init(void *b, u64 s) { return SASIndexNodeInit(b, SAS_RUNTIME_INDEXNODE, s); }
  static void destroy(N n, int how) { if (how == 2) SASIndexNodeDestroyNoLock(n); else SASIndexNodeDestroy(n, how); }
  static u64 freespace(N n, int how) { return how == 2 ? SASIndexNodeFreeSpaceNoLock(n) : SASIndexNodeFreeSpace(n, how); }
  static u64 frags(N n) { return SASIndexNodeFreeFragmentsNoLock(n); }
  static u64 maxfrag(N n) { return SASIndexNodeMaxFragmentNoLock(n); }
  static void *alloc(N n, u64 s, int how) { return how == 2 ? SASIndexNodeAllocNoLock(n, s) : SASIndexNodeAlloc(n, s, how); }
  static void *nearalloc(void *p, u64 s, int l) { return SASIndexNodeNearAlloc(p, s, l); }
  static int free_(N n, void *p, u64 s, int how) { return how == 2 ? SASIndexNodeFreeNoLock(n, p, s) : SASIndexNodeFree(n, p, s, how); }
};
template <class B> using NMap = std::map<typename B::Key, u64>;
// in key order, every node below `n`
template <class B> static int walk(Case &c, typename B::N n, std::vector<std::pair<typename B::Key, u64>> &out, u64 &nodes, int depth) {
  CHECK(depth < 12, "walk", "the branches go more than 12 levels down"); nodes++;
  int cnt = B::count(n); CHECK(cnt >= 1 && cnt <= 4096, "walk-count", "a node at level %d reports %d entries", depth, cnt);
  int below = -2;
  for (int i = 0; i <= cnt; i++) {
    if (i) { typename B::Key k; bool got = B::key(n, i, k); CHECK(got, "walk-key", "entry %d of %d at level %d has no key", i, cnt, depth); out.push_back({k, (u64)B::val(n, i)}); }
    typename B::N b = B::branch(n, i); int d = 0;
    if (b) { size_t at = out.size(); typename B::Key sep; if (i) sep = out.back().first; d = 1 + walk<B>(c, b, out, nodes, depth + 1); if (i) CHECK(sep < out[at].first, "walk-order", "branch %d starts before its key", i); }
    CHECK(below == -2 || below == d, "walk-depth", "branches %d and %d of a node at level %d are %d and %d levels deep", i - 1, i, depth, below, d); below = d;
  }
  return below;
}
template <class B> static u64 check_walk(Case &c, typename B::N root, const NMap<B> &m) {
  std::vector<std::pair<typename B::Key, u64>> got; u64 nodes = 0; if (root) walk<B>(c, root, got, nodes, 0); size_t i = 0;
  for (auto &x : m) { CHECK(i < got.size(), "walk-missing", "%s is not in the nodes (%zu entries, %zu expected)", B::A::show(x.first).c_str(), got.size(), m.size());
    CHECK(got[i].first == x.first, "walk-keys", "entry %zu in order is %s, expected %s", i, B::A::show(got[i].first).c_str(), B::A::show(x.first).c_str());
    CHECK(got[i].second == x.second, "walk-vals", "the value of %s is %lx, expected %lx", B::A::show(x.first).c_str(), got[i].second, x.second); i++; }
  CHECK(i == got.size(), "walk-extra", "%s is in the nodes but not in the history", B::A::show(got[i].first).c_str()); return nodes;
}
template <class B> static void check_search(Case &c, typename B::N root, NMap<B> &m, const typename B::Key &k, u64 *newval = nullptr) {
  static const char *names[] = {"Search", "SearchGT", "SearchGE", "SearchLT", "SearchLE"};
  for (int kind = 0; kind < 5; kind++) {
    auto it = kind == 0 ? m.find(k) : kind == 1 ? m.upper_bound(k) : kind == 2 ? m.lower_bound(k) : kind == 3 ? m.lower_bound(k) : m.upper_bound(k);
    if (kind >= 3) { if (it == m.begin()) it = m.end(); else --it; }
    typename B::R r; memset(&r, 0, sizeof r); int f = B::search(kind, root, k, &r);
    CHECK((f != 0) == (it != m.end()), "node-search", "%s(%s) = %d, the history gives %s", names[kind], B::A::show(k).c_str(), f, it == m.end() ? "no such key" : B::A::show(it->first).c_str());
    if (!f) continue;
    CHECK(r.node && r.pos >= 1 && r.pos <= B::count(r.node), "node-search-pos", "%s(%s) points at entry %d of %p", names[kind], B::A::show(k).c_str(), r.pos, r.node);
    typename B::Key g; bool got = B::key(r.node, r.pos, g); CHECK(got && g == it->first, "node-search-key", "%s(%s) found %s, expected %s", names[kind], B::A::show(k).c_str(), got ? B::A::show(g).c_str() : "nothing", B::A::show(it->first).c_str());
    u64 v = (u64)B::val(r.node, r.pos); CHECK(v == it->second, "node-search-val", "%s(%s) found the value %lx, expected %lx", names[kind], B::A::show(k).c_str(), v, it->second);
    if (newval) { u64 o = (u64)B::putval(r.node, r.pos, (void *)*newval); CHECK(o == it->second, "node-put", "PutValIndexed gave the old value %lx, expected %lx", o, it->second); it->second = *newval; *newval += 16;
      v = (u64)B::val(r.node, r.pos); CHECK(v == it->second, "node-put", "PutValIndexed left the value %lx, expected %lx", v, it->second); }
  }
}
template <class B> static void not_a_node(Case &c, void *x, const typename B::Key &k) {
  typename B::R r; memset(&r, 0, sizeof r);
  int n = B::count(x); CHECK(n == -1, "no-node", "GetCount of something else = %d", n); typename B::Key kk; CHECK(!B::key(x, 1, kk), "no-node", "GetKeyIndexed of something else gave a key");
  CHECK(!B::val(x, 1) && !B::branch(x, 0) && !B::putval(x, 1, x), "no-node", "Get/PutValIndexed or GetBranchIndexed of something else gave a result");
  for (int i = 0; i < 5; i++) { int f = B::search(i, x, k, &r); CHECK(!f, "no-node", "search %d in something else = %d", i, f); }
}
// the tree's own nodes after a history through the tree
PBT_TEST(D07, walk, 1) {
  sas_join(c); Universe<Str> u; u.gen(c, gen_universe_size(c)); Model<Str> M; M.u = &u; M.page = 4096; u64 size = 1ull << (17 + c.below(4));
  M.t = Str::create(size); CHECK(M.t, "create", "create"); void *r0 = SASStringBTreeGetRootNode(M.t); CHECK(!r0, "root", "a new tree has the root %p", r0);
  bool one = false; u64 nv = 0x77000000;
  for (int round = 0, n = (int)c.range(1, 3); round < n; round++) {
    history(c, M, 200000, 6); SASStringBTreeNode_t root = c.chance(1, 2) ? SASStringBTreeGetRootNode(M.t) : SASStringBTreeGetRootNodeNoLock(M.t);
    CHECK((root != nullptr) == !M.m.empty(), "root", "the root is %p, the tree has %zu entries", root, M.m.size());
    u64 nodes = check_walk<StrN>(c, root, M.m); c.log("walk: %lu nodes, %zu entries", nodes, M.m.size()); c.count("nodes", nodes);
    if (root) { for (int j = 0; j < 40; j++) { bool put = c.rarely(1, 4); std::string k = u.key(c.below(u.n)); if (c.chance(1, 6)) k += "!"; check_search<StrN>(c, root, M.m, k, put ? &nv : nullptr); }
      if (nodes > 1) one = true; } }
  check_all(c, M); if (one) c.nontrivial();
  not_a_node<StrN>(c, M.t, "k"); static char junk[4096] __attribute__((aligned(4096))); not_a_node<StrN>(c, junk, "k");
  void *h = SASSimpleHeapCreate(4096); not_a_node<StrN>(c, h, "k"); CHECK(!SASStringBTreeGetRootNode(h) && !SASStringBTreeGetRootNodeNoLock(h), "root", "something else has a root node");
}
// the nodes of an index: the way to its root is not in an installed header, so this runs only where the library has it
extern "C" SASIndexNode_t SASIndexGetRootNode(SASIndex_t) __attribute__((weak));
PBT_TEST(D07, indexwalk, 1) {
  if (!SASIndexGetRootNode) { c.discard(); return; }
  sas_join(c); Universe<Index> u; u.gen(c, gen_universe_size(c)); Model<Index> M; M.u = &u; M.page = 4096; M.t = Index::create(1ull << (17 + c.below(4))); CHECK(M.t, "create", "create"); bool one = false; u64 nv = 0x77000000;
  for (int round = 0, n = (int)c.range(1, 3); round < n; round++) {
    history(c, M, 200000, 6); SASIndexNode_t root = SASIndexGetRootNode(M.t);
    CHECK((root != nullptr) == !M.m.empty(), "root", "the root is %p, the index has %zu entries", root, M.m.size());
    u64 nodes = check_walk<IdxN>(c, root, M.m); c.log("walk: %lu nodes, %zu entries", nodes, M.m.size()); c.count("nodes", nodes);
    if (root) { for (int j = 0; j < 40; j++) { bool put = c.rarely(1, 4); IdxKey k = u.key(c.below(u.n)); if (c.chance(1, 6)) k.w.back()++; check_search<IdxN>(c, root, M.m, k, put ? &nv : nullptr); }
      if (nodes > 1) one = true; } }
  check_all(c, M); if (one) c.nontrivial(); IdxKey k; k.w = {1}; not_a_node<IdxN>(c, M.t, k); static char junk[4096] __attribute__((aligned(4096))); not_a_node<IdxN>(c, junk, k);
}
// a tree built by hand from pages of a string tree
PBT_TEST(D07, byhand, 1) {
  sas_join(c); Universe<Str> u; ShortKeys<Str>::gen(c, u, gen_universe_size(c)); u64 size = 1ull << (17 + c.below(4)); bool fixed = c.rarely(1, 3);
  SASStringBTree_t t = fixed ? Str::fixed(size) : Str::create(size); CHECK(t, "create", "create(%lx)", size); u64 free0 = SASStringBTreeFreeSpace(t);
  u64 cap = fixed ? ~0ull : 6000, refused = 0;  c.log("%s tree of %lx", fixed ? "fixed" : "expanding", size);
  NMap<StrN> m; SASStringBTreeNode_t root = nullptr; u64 nv = 0x1000; u64 levels = 0, maxn = 0;
  auto put = [&](u64 i, bool log) { std::string k = u.key(i % u.n); u64 v = nv += 16; int lk = (int)(mixu(v) & 1);
    if (!root) { root = lk ? SASStringBTreeAlloc(t) : SASStringBTreeAllocNoLock(t); CHECK(root, "page", "an empty tree has no page"); SASStringBTreeNodeInitialize(root, k.c_str(), (void *)v, lk); m[k] = v; if (log) c.log("initialize %s", Str::show(k).c_str()); return; }
    if (m.size() >= cap && !m.count(k)) return;
    SASStringBTreeNode_t r = SASStringBTreeNodeInsert(root, k.c_str(), (void *)v, lk); if (log) c.log("insert%d %s -> %s", lk, Str::show(k).c_str(), !r ? "refused" : r == root ? "same root" : "new root");
    if (!r && fixed && !m.count(k)) { u64 f = SASStringBTreeFreeSpace(t); CHECK(f < 8 * 4096, "node-insert", "insert(%s) refused with %lx bytes of pages free", Str::show(k).c_str(), f); if (refused++ % 64 == 0) check_walk<StrN>(c, root, m); return; }
    CHECK((r == nullptr) == (m.count(k) != 0), "node-insert", "insert(%s) = %p but the key was %s", Str::show(k).c_str(), r, m.count(k) ? "present" : "absent");
    if (r) { if (r != root) levels++; root = r; m[k] = v; } };
  auto del = [&](const std::string &k, bool log) { if (!root) return; int lk = (int)(mixu(nv += 16) & 1); SASStringBTreeNode_t r = SASStringBTreeNodeDelete(root, k.c_str(), lk); bool had = m.erase(k);
    if (log) c.log("delete%d %s -> %s", lk, Str::show(k).c_str(), r == root ? "same root" : r ? "new root" : "empty");
    CHECK(had || r == root, "node-delete", "delete(%s) of an absent key = %p, the root was %p", Str::show(k).c_str(), r, root); CHECK((r == nullptr) == m.empty(), "node-delete", "delete(%s) = %p with %zu entries left", Str::show(k).c_str(), r, m.size());
    if (r != root) { switch ((int)(nv >> 4 & 3)) { case 0: SASStringBTreeFree(t, root); break; case 1: SASStringBTreeFreeNoLock(t, root); break; case 2: SASStringBTreeNearDealloc(root); break; default: SASStringBTreeNearDeallocNoLock(root); } root = r; } };
  for (int ph = 0, n = (int)c.range(1, c.thorough ? 30 : 12); ph < n; ph++) {
    int what = (int)c.below(4);
    if (what < 2) for (int j = 0, e = (int)c.range(1, 12); j < e; j++) { u64 i = c.below(u.n); if (c.below(5) < 3) put(i, true); else if (!m.empty() && c.chance(1, 2)) del(c.chance(1, 2) ? m.begin()->first : m.rbegin()->first, true); else del(u.key(i), true); }
    else { bool in = what == 2 || m.empty(); int pat = (int)c.below(4); u64 start = c.below(u.n), cnt = 1 + c.below(c.chance(1, 2) ? 70 : c.chance(1, 2) ? 400 : 3000); c.log("bulk %s x%lu pattern %d from %lu", in ? "insert" : "delete", cnt, pat, start);
      for (u64 j = 0; j < cnt; j++) { u64 i = order(pat, start, j, cnt); if (in) put(i, false); else del(u.key(i % u.n), false); } }
    u64 nodes = check_walk<StrN>(c, root, m); maxn = std::max(maxn, nodes);
    if (root) for (int j = 0; j < 6; j++) check_search<StrN>(c, root, m, u.key(c.below(u.n)), c.rarely(1, 4) ? &nv : nullptr);
  }
  c.count("nodes", maxn); if (levels && maxn > 3) c.nontrivial();
  int pat = (int)c.below(3); while (!m.empty()) { auto it = pat == 0 ? m.begin() : pat == 1 ? std::prev(m.end()) : m.lower_bound(u.key(mixu(nv) % u.n)); if (it == m.end()) it = m.begin(); del(std::string(it->first), false); }
  c.log("emptied");
  u64 f = SASStringBTreeFreeSpace(t); if (fixed) CHECK(f == free0, "node-pages", "all nodes are back but the tree has %lx free, %lx at first", f, free0);
  SASStringBTreeDestroy(t);
}
// entries put into and taken from the nodes of an index below its back, through its root, as long as the root stays
PBT_TEST(D07, indexroot, 0.7) {
  if (!SASIndexGetRootNode) { c.discard(); return; }
  sas_join(c); Universe<Index> u; ShortKeys<Index>::gen(c, u, gen_universe_size(c)); Model<Index> M; M.u = &u; M.page = 4096; u64 size = 1ull << (18 + c.below(3)); M.t = Index::create(size); CHECK(M.t, "create", "create"); u64 nv = 0x77000000, done = 0;
  for (int round = 0, n = (int)c.range(1, 3); round < n; round++) {
    history(c, M, 200000, 6); SASIndexNode_t root = SASIndexGetRootNode(M.t); if (!root) continue; NMap<IdxN> m; for (auto &x : M.m) m[x.first] = x.second; NMap<IdxN> was = m;
    auto put = [&](const IdxKey &k, u64 v, int lk) { if (IdxN::count(root) > 60) return; auto r = IdxN::insert(root, k, (void *)v, lk); bool had = m.count(k); CHECK(r == (had ? nullptr : root), "node-insert", "insert%d(%s) = %p, the root is %p, the key was %s", lk, Index::show(k).c_str(), r, root, had ? "present" : "absent"); if (r) m[k] = v; done++; };
    auto del = [&](const IdxKey &k, int lk) { if (IdxN::count(root) < 2) return; auto r = IdxN::del(root, k, lk); bool had = m.erase(k); CHECK(r == root, "node-delete", "delete%d(%s) = %p, the root is %p, the key was %s", lk, Index::show(k).c_str(), r, root, had ? "present" : "absent"); done++; };
    for (int ph = 0, e = (int)c.range(1, 5); ph < e; ph++) { bool in = c.chance(1, 2); int pat = (int)c.below(4); u64 start = c.below(u.n), cnt = 1 + c.below(c.chance(1, 2) ? 70 : 600); c.log("%s x%lu below the root, pattern %d from %lu", in ? "insert" : "delete", cnt, pat, start);
      for (u64 j = 0; j < cnt; j++) { IdxKey k = u.key(order(pat, start, j, cnt) % u.n); int lk = (int)(mixu(nv += 16) & 1); if (in) put(k, nv, lk); else del(k, lk); }
      check_walk<IdxN>(c, root, m); for (int j = 0; j < 6; j++) check_search<IdxN>(c, root, m, u.key(c.below(u.n)), c.rarely(1, 4) ? &nv : nullptr); }
    // as it was before
    for (auto &x : was) { auto it = m.find(x.first); if (it != m.end() && it->second != x.second) { IDXnodePosRef r; memset(&r, 0, sizeof r); int f = IdxN::search(0, root, x.first, &r); CHECK(f, "node-search", "%s is not found", Index::show(x.first).c_str()); IdxN::putval(r.node, r.pos, (void *)x.second); it->second = x.second; } if (it == m.end()) put(x.first, x.second, (int)(mixu(nv += 16) & 1)); }
    std::vector<IdxKey> extra; for (auto &x : m) if (!was.count(x.first)) extra.push_back(x.first); for (auto &k : extra) del(k, (int)(mixu(nv += 16) & 1));
    for (auto &x : was) if (!m.count(x.first)) put(x.first, x.second, 1);
    check_walk<IdxN>(c, root, m); if (m.size() != was.size()) { c.count("not undone"); if (done > 3) c.nontrivial(); return; }
    SASIndexNode_t now = SASIndexGetRootNode(M.t); CHECK(now == root, "root", "the root became %p", now);
  }
  check_all(c, M); c.count("operations", done); if (done > 3) c.nontrivial();
}
// one node of its own: entries and heap
template <class B> static void ownnode(Case &c) {
  sas_join(c); Universe<typename B::A> u; ShortKeys<typename B::A>::gen(c, u, c.chance(1, 2) ? 12 : 90); u64 size = 4096ull << c.below(5); typename B::N n; void *outer = nullptr; u64 used0 = used();
  if (c.chance(1, 2)) n = B::create(size); else { outer = SASBlockAlloc(4 * size); fill(outer, 4 * size, 5); n = B::init((char *)outer + size, size); }
  u64 nb = (u64)n; CHECK(n && (!outer || n == (char *)outer + size), "node-create", "node %p", n); c.log("node of %lx%s", size, outer ? " inside a block" : "");
  NMap<B> m; u64 nv = 0x1000; bool nomore = false; int most = 0;
  if (c.rarely(1, 4)) nomore = true;                                   // only a heap
  else { typename B::Key k = u.key(c.below(u.n)); B::initialize(n, k, (void *)nv, (int)c.below(2)); m[k] = nv; }
  Ivals iv; struct P { u64 a, n, tag; }; std::vector<P> live; u64 tag = 1; u64 base = 0, lo = nb + 128, hi = nb + size; u64 livebytes = 0, frees = 0;
  for (int ph = 0, e = (int)c.range(1, 8); ph < e; ph++) {
    if (!nomore && live.empty() && c.chance(2, 3)) {                    // entries
      for (int j = 0, q = (int)c.range(1, 50); j < q; j++) { typename B::Key k = u.key(c.below(u.n)); int lk = (int)c.below(2); nv += 16;
        if (m.empty()) { B::initialize(n, k, (void *)nv, lk); m[k] = nv; continue; }
        if (c.below(4) < 3) { typename B::N r = B::insert(n, k, (void *)nv, lk); bool had = m.count(k); CHECK(r == nullptr || r == n, "node-insert", "insert into a single node gave another root %p", r);
          if (!r && !had) { CHECK(m.size() >= 31, "node-insert", "a node with %zu entries refuses %s", m.size(), B::A::show(k).c_str()); nomore = m.size() > 62; continue; }
          CHECK((r == nullptr) == had, "node-insert", "insert(%s) = %p but the key was %s", B::A::show(k).c_str(), r, had ? "present" : "absent"); if (r) m[k] = nv; }
        else { if (c.chance(1, 2) && !m.empty()) k = m.lower_bound(k) == m.end() ? m.begin()->first : m.lower_bound(k)->first; typename B::N r = B::del(n, k, lk); bool had = m.erase(k); CHECK(m.empty() ? !r : r == n, "node-delete", "delete(%s) (%s) = %p with %zu entries left", B::A::show(k).c_str(), had ? "present" : "absent", r, m.size());
          if (m.empty()) { CHECK(B::count(n) == 0, "node-delete", "an emptied node has the count %d", B::count(n)); } } }
      most = std::max(most, (int)m.size()); if (!m.empty()) check_walk<B>(c, n, m); c.log("%zu entries", m.size());
      if (!m.empty()) for (int j = 0; j < 8; j++) check_search<B>(c, n, m, u.key(c.below(u.n)), c.rarely(1, 4) ? &nv : nullptr);
    } else {                                                            // pieces
      if (live.empty()) base = B::freespace(n, 2);
      for (int j = 0, q = (int)c.range(1, 40); j < q; j++) {
        if (!live.empty() && c.below(8) < 3) { size_t i = c.below(live.size()); P p = live[i]; live[i] = live.back(); live.pop_back(); long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "node-contents", "a piece at +%lx changed at %ld", p.a - nb, d);
          int how = (int)c.below(3), rc = B::free_(n, (void *)p.a, p.n, how); c.log("free%d +%lx %lu", how, p.a - nb, p.n); CHECK(rc == 0, "node-free", "free of a live piece = %d", rc); iv.del(p.a); livebytes -= (p.n + 15) & ~15ull; frees++; }
        else if (c.rarely(1, 12)) { u64 f0 = B::freespace(n, 2); int k = (int)c.below(4), rc = -1; void *p = nullptr; if (k == 0) p = B::alloc(n, size + c.below(64), (int)c.below(3)); else if (k == 1) rc = B::free_(n, (void *)(nb + 16 * c.below(8)), 16, (int)c.below(3)); else if (k == 2) { static char junk[4096] __attribute__((aligned(4096))); rc = B::free_(junk, junk + 512, 16, (int)c.below(3)); p = B::alloc(junk, 16, (int)c.below(3)); } else rc = B::free_(n, (void *)(nb + 512), size, (int)c.below(3));
          CHECK(!p && rc != 0, "node-refuse", "an impossible request (%d) gave %p / %d", k, p, rc); CHECK(B::freespace(n, 2) == f0, "node-refuse", "a refused request (%d) changed the free space", k); }
        else { u64 f = base - livebytes; u64 mf = f ? B::maxfrag(n) : 0; u64 want = c.chance(1, 2) ? 1 + c.below(100) : c.chance(1, 2) ? 1 + c.below(f + 1) : 1 + c.below(mf + 1); int how = (int)c.below(4); void *p;
          if (how == 3) { p = B::nearalloc((char *)nb + c.below(size), want, (int)c.below(2)); } else p = B::alloc(n, want, how); c.log("alloc%d %lu -> +%lx", how, want, p ? (u64)p - nb : 0);
          CHECK((p != nullptr) == (((want + 15) & ~15ull) <= mf), "node-alloc", "alloc of %lu = %p, the largest free piece has %lu bytes", want, p, mf); if (!p) continue;
          CHECK((u64)p >= lo && (u64)p + want <= hi, "node-inside", "a piece at +%lx of %lu lies outside the node", (u64)p - nb, want); Ival w; CHECK(!iv.hits((u64)p, (want + 15) & ~15ull, &w), "node-overlap", "piece +%lx overlaps +%lx", (u64)p - nb, w.a - nb);
          iv.add((u64)p, (want + 15) & ~15ull); live.push_back({(u64)p, want, tag}); fill(p, want, tag++); livebytes += (want + 15) & ~15ull; }
        u64 f = B::freespace(n, (int)c.below(3)); CHECK(f == base - livebytes, "node-space", "free space %lx, the history gives %lx", f, base - livebytes);
        if (f) { u64 mf = B::maxfrag(n), fr = B::frags(n); CHECK(mf <= f && mf * fr >= f && fr >= 1, "node-frags", "%lu pieces free, the largest %lx, %lx in all", fr, mf, f); }
      }
      if (c.chance(1, 2)) { while (!live.empty()) { P p = live.back(); live.pop_back(); long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "node-contents", "a piece changed"); CHECK(B::free_(n, (void *)p.a, p.n, 2) == 0, "node-free", "free"); iv.del(p.a); } livebytes = 0; u64 f = B::freespace(n, 1); CHECK(f == base, "node-space", "free space %lx after all frees, %lx before", f, base); }
      if (!m.empty()) check_walk<B>(c, n, m);
    } }
  for (auto &p : live) { long d = check_fill((void *)p.a, p.n, p.tag); CHECK(d < 0, "node-contents", "a piece changed"); }
  if (outer) { CHECK(check_fill(outer, size, 5) < 0, "node-neighbour", "the memory before the node changed"); }
  else { int how = (int)c.below(3); if (how != 2 && c.chance(1, 2)) { void *h = SASSimpleHeapCreate(4096); u64 b = used(); B::destroy(h, how); CHECK(used() == b, "no-node", "NodeDestroy gave back something else"); SASSimpleHeapDestroy(h); } B::destroy(n, how); u64 a = used(); CHECK(a == used0, "node-destroy", "%lx bytes in use after the node is gone, %lx before", a, used0); }
  if (most > 6 || (frees > 2 && iv.m.size() > 1)) c.nontrivial();
}
PBT_TEST(D07, stringnode, 0.7) { ownnode<StrN>(c); }
PBT_TEST(D07, indexnode, 0.7) { ownnode<IdxN>(c); }
