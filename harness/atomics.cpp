// B03: atomic operations against the operations they stand for: values ("plain"), all schedules ("sched"), free-running threads ("plain")
#include "sas.h"
#include <functional>
#include <atomic>
using namespace pbt;
// the implementation for machines without one of their own, beside this machine's
namespace gen {
#include "sasatom_generic.h"
}
enum Op { ADD, ADDP, AND32, OR32, ANDL, ORL, CAS, SWAP, INC, DEC, INCL, DECL, G_ADD, G_ADDP, G_CAS, G_SWAP, G_INC, G_DEC, NOPS };
static const char *nm[] = {"fetch_and_add", "fetch_and_add_ptr", "fetch_and_and", "fetch_and_or", "fetch_and_and_long", "fetch_and_or_long", "compare_and_swap", "atomic_swap", "atomic_inc", "atomic_dec", "atomic_inc_long", "atomic_dec_long", "generic fetch_and_add", "generic fetch_and_add_ptr", "generic compare_and_swap", "generic atomic_swap", "generic atomic_inc", "generic atomic_dec"};
static bool is32(int op) { return op == AND32 || op == OR32; }
static bool quietop(int op) { return op == INC || op == DEC || op == G_INC || op == G_DEC; }  // no result
// what the operation does to *p and returns
static u64 model(int op, u64 &v, u64 a, u64 b) { u64 o = v; switch (op) { case ADD: case ADDP: case G_ADD: case G_ADDP: v = o + a; return o; case AND32: { u64 x = o & 0xffffffff; v = (o & ~0xffffffffull) | (x & (a & 0xffffffff)); return x; } case OR32: { u64 x = o & 0xffffffff; v = o | (a & 0xffffffff); return x; } case ANDL: v = o & a; return o; case ORL: v = o | a; return o; case CAS: case G_CAS: if (o == a) { v = b; return 1; } return 0; case SWAP: case G_SWAP: v = a; return o; case INC: case G_INC: v = o + 1; return 0; case DEC: case G_DEC: v = o - 1; return 0; case INCL: v = o + 1; return o; default: v = o - 1; return o; } }
template <class T> static inline T *reg(T *p) { asm volatile("" : "+r"(p)); return p; } // (the operations take their address in a register)
static inline __attribute__((always_inline)) u64 real(int op, long *p, u64 a, u64 b) { p = reg(p); switch (op) { case ADD: return (u64)sas_fetch_and_add(p, (long)a); case ADDP: return (u64)sas_fetch_and_add_ptr((void **)p, (long)a); case AND32: return (u64)sas_fetch_and_and((unsigned *)p, (int)a); case OR32: return (u64)sas_fetch_and_or((unsigned *)p, (int)a); case ANDL: return (u64)sas_fetch_and_and_long((unsigned long *)p, (long)a); case ORL: return (u64)sas_fetch_and_or_long((unsigned long *)p, (long)a); case CAS: return (u64)!!sas_compare_and_swap(p, (long)a, (long)b); case SWAP: return (u64)sas_atomic_swap(p, (long)a); case INC: sas_atomic_inc(p); return 0; case DEC: sas_atomic_dec(p); return 0; case INCL: return (u64)sas_atomic_inc_long(p); case DECL: return (u64)sas_atomic_dec_long(p);
  case G_ADD: return (u64)gen::__arch_fetch_and_add(p, (long)a); case G_ADDP: return (u64)gen::__arch_fetch_and_add_ptr((void **)p, (long)a); case G_CAS: return (u64)!!gen::__arch_compare_and_swap(p, (long)a, (long)b); case G_SWAP: return (u64)gen::__arch_atomic_swap(p, (long)a); case G_INC: gen::__arch_atomic_inc(p); return 0; default: gen::__arch_atomic_dec(p); return 0; } }
static u64 value(Case &c) { switch (c.below(6)) { case 0: return c.below(4); case 1: return 0 - c.below(4); case 2: return (1ull << 31) + c.below(4) - 2; case 3: return (1ull << 32) + c.below(4) - 2; case 4: return (1ull << 63) + c.below(4) - 2; default: return c.bits64(); } }
#ifndef VERIF_SCHED
PBT_TEST_X(B03, values, 2, NOSTORE, 6, 3) {
  struct { u64 lo; long v; u64 hi; } s; u64 lo = c.bits64(), hi = c.bits64(), v = value(c); s.lo = lo; s.hi = hi; s.v = (long)v; u64 n = c.range(1, 200);
  for (u64 i = 0; i < n; i++) { if (c.rarely(1, 3)) { v = value(c); s.v = (long)v; } int op = (int)c.below(NOPS); u64 a = value(c), b = value(c), o = v; if ((op == CAS || op == G_CAS) && c.chance(1, 2)) a = v; u64 want = model(op, v, a, b), got; bool drop = c.rarely(1, 4); if (drop) real(op, &s.v, a, b), got = want; else got = real(op, &s.v, a, b);
    c.log("%s(%lx, %lx) on %lx -> %lx, now %lx", nm[op], a, b, o, got, (u64)s.v); CHECK((u64)s.v == v, "value", "%s(%lx, %lx) on %lx leaves %lx, expected %lx", nm[op], a, b, o, (u64)s.v, v); CHECK(quietop(op) || got == want, "result", "%s(%lx, %lx) on %lx returns %lx, expected %lx", nm[op], a, b, o, got, want); CHECK(s.lo == lo && s.hi == hi, "neighbours", "%s changed its neighbours", nm[op]); }
  c.nontrivial();
}
// locks, used by one thread
PBT_TEST_X(B03, locks, 1, NOSTORE, 6, 3) {
  struct { u64 lo; sas_spin_lock_t l; unsigned hi; } s; s.lo = c.bits64(); s.hi = (unsigned)c.bits64(); u64 lo = s.lo; unsigned hi = s.hi; s.l = (unsigned)c.bits64(); sas_spin_lock_init(reg(&s.l)); bool held = false; void *vp = (void *)c.bits64(); struct { u64 lo; sas_lock_ptr_t l; u64 hi; } q; q.lo = lo; q.hi = hi; q.l = vp; sas_lock_ptr_init(reg(&q.l)); CHECK(!q.l, "init", "init"); u64 ptr = 0; bool pheld = false; u64 n = c.range(1, 100), k = 0;
  for (u64 i = 0; i < n; i++) switch (c.below(11)) {
    case 0: if (!held) { switch (c.below(4)) { case 0: sas_spin_lock(reg(&s.l)); break; case 1: sas_spin_lock_with_yield(reg(&s.l)); break; case 2: gen::__arch_sas_spin_lock(reg(&s.l)); break; default: CHECK(!sas_spin_trylock(reg(&s.l)), "trylock", "a free lock is refused"); } held = true; k++; } break;
    case 1: { int r = c.chance(1, 2) ? sas_spin_trylock(reg(&s.l)) : gen::__arch_sas_spin_trylock(reg(&s.l)); CHECK(!r == !held, "trylock", "trying a %s lock gives %d", held ? "held" : "free", r); held = true; break; }
    case 2: if (held) { sas_spin_unlock(reg(&s.l)); held = false; } break;
    case 3: if (c.rarely(1, 6)) { sas_spin_lock_init(reg(&s.l)); held = false; } break;
    case 4: if (!pheld) { void *r = sas_lock_ptr(reg(&q.l)); CHECK((u64)r == ptr, "pointer", "the locked pointer is %p, expected %lx", r, ptr); pheld = true; k++; } break;
    case 5: if (!pheld) { sas_lock_ptr_with_yield(reg(&q.l)); pheld = true; } break;
    case 6: { int r = sas_trylock_ptr(reg(&q.l)); CHECK(!r == !pheld, "trylock", "trying a %s pointer gives %d", pheld ? "held" : "free", r); pheld = true; break; }
    case 7: if (pheld) { sas_unlock_ptr(reg(&q.l)); pheld = false; } break;
    case 8: if (pheld) { ptr = value(c) & ~1ull; sas_set_locked_ptr(reg(&q.l), (void *)ptr); } break;
    case 9: if (!pheld) { ptr = value(c) & ~1ull; sas_set_unlocked_ptr(reg(&q.l), (void *)ptr); pheld = true; } break;
    default: CHECK(((u64)q.l | 1) == (ptr | 1) && ((u64)q.l & 1) == pheld, "pointer", "the pointer is %p, expected %lx, %s", q.l, ptr, pheld ? "held" : "free"); CHECK(s.lo == lo && s.hi == hi && q.lo == lo && q.hi == hi, "neighbours", "neighbours changed"); }
  if (k > 2) c.nontrivial();
}
// free-running threads: sums, tokens and counters must come out right
static struct alignas(64) { long v; char pad[56]; long bits; char p2[56]; long tok; char p3[56]; unsigned b32; char p4[60]; sas_spin_lock_t l; char p5[60]; sas_lock_ptr_t lp; char p6[56]; u64 c1, c2; long cas; char p7[56]; void *ptr; } S;
PBT_TEST_X(B03, stress, 2, NOSTORE | NONDET, 40, 100) {
  memset(&S, 0, sizeof S); int T = (int)c.range(2, 8); u64 n = c.range(100, 20000), v0 = value(c), seed = c.bits64(); int prof = (int)c.below(7); bool g = c.chance(1, 2); S.v = (long)v0; S.tok = -1; S.cas = (long)v0; S.ptr = (void *)v0; c.log("%d threads of %lu operations from %lx, profile %d%s", T, n, v0, prof, g ? ", generic" : "");
  std::atomic<u64> sum{0}, casok{0}, bad{0}, toks{0}, psum{0}; std::atomic<bool> go{false}; std::vector<std::function<void()>> fs; std::vector<pthread_t> th(T);
  for (int t = 0; t < T; t++) fs.push_back([&, t] { Rng r(seed + t); u64 s = 0, ck = 0, tk = 0, ps = 0; while (!go) sched_yield();
    for (u64 i = 0; i < n; i++) { u64 a = r.chance(1, 2) ? r.next() : r.below(3) + (1ull << 31); switch (prof) {
      case 0: switch (r.below(g ? 3 : 5)) { case 0: if (g) gen::__arch_fetch_and_add(reg(&S.v), (long)a); else sas_fetch_and_add(reg(&S.v), (long)a); s += a; break; case 1: if (g) gen::__arch_atomic_inc(reg(&S.v)); else sas_atomic_inc(reg(&S.v)); s++; break; case 2: if (g) gen::__arch_atomic_dec(reg(&S.v)); else sas_atomic_dec(reg(&S.v)); s--; break; case 3: sas_atomic_inc_long(reg(&S.v)); s++; break; default: sas_atomic_dec_long(reg(&S.v)); s--; } break;
      case 1: { u64 m = 3ull << (t * 2); u64 own = sas_fetch_and_or_long((unsigned long *)&S.bits, (long)m) & m; (void)own; if ((S.bits & m) != m) bad++; u64 o = (u64)sas_fetch_and_and_long((unsigned long *)&S.bits, (long)~m); if ((o & m) != m) bad++; unsigned m2 = 3u << (t * 2); sas_fetch_and_or(&S.b32, (int)m2); if ((S.b32 & m2) != m2) bad++; o = (u64)sas_fetch_and_and(&S.b32, (int)~m2); if ((o & m2) != m2) bad++; break; }
      case 2: { u64 mine = (u64)t * n + i + 1; tk += mine; u64 o = (u64)(g ? gen::__arch_atomic_swap(reg(&S.tok), (long)mine) : sas_atomic_swap(reg(&S.tok), (long)mine)); tk -= o; break; }
      case 3: { long o = *(volatile long *)&S.cas; if (g ? gen::__arch_compare_and_swap(reg(&S.cas), o, (long)((u64)o + a)) : sas_compare_and_swap(reg(&S.cas), o, (long)((u64)o + a))) ck += a; break; }
      case 4: { switch (r.below(3)) { case 0: if (g) gen::__arch_sas_spin_lock(reg(&S.l)); else sas_spin_lock(reg(&S.l)); break; case 1: sas_spin_lock_with_yield(reg(&S.l)); break; default: while (g ? gen::__arch_sas_spin_trylock(reg(&S.l)) : sas_spin_trylock(reg(&S.l))) sched_yield(); } u64 x = S.c1; if (x != S.c2) bad++; S.c1 = x + 1; if (r.chance(1, 64)) sched_yield(); S.c2 = x + 1; sas_spin_unlock(reg(&S.l)); break; }
      case 5: { int w = (int)r.below(3); u64 cur; if (w == 0) cur = (u64)sas_lock_ptr(reg(&S.lp)); else { if (w == 1) sas_lock_ptr_with_yield(reg(&S.lp)); else while (sas_trylock_ptr(reg(&S.lp))) sched_yield(); cur = (u64)S.lp & ~1ull; } if (cur != S.c1 * 2) bad++; S.c1++; sas_set_locked_ptr(reg(&S.lp), (void *)(S.c1 * 2)); sas_unlock_ptr(reg(&S.lp)); break; }
      default: ps += a; if (g) gen::__arch_fetch_and_add_ptr(reg(&S.ptr), (long)a); else sas_fetch_and_add_ptr(reg(&S.ptr), (long)a); } }
    sum += s; casok += ck; toks += tk; psum += ps; });
  for (int t = 0; t < T; t++) pthread_create(&th[t], nullptr, [](void *q) -> void * { (*(std::function<void()> *)q)(); return nullptr; }, &fs[t]); go = true; for (auto &t : th) pthread_join(t, nullptr); u64 total = n * T;
  CHECK(!bad, "exclusion", "%lu violations", (u64)bad); switch (prof) { case 0: CHECK((u64)S.v == v0 + sum, "lost", "the sum is %lx, expected %lx", (u64)S.v, v0 + sum); break; case 1: CHECK(!S.bits && !S.b32, "lost", "bits left: %lx %x", S.bits, S.b32); break; case 2: CHECK(toks == (u64)S.tok + 1, "lost", "tokens lost or duplicated"); break; case 3: CHECK((u64)S.cas == v0 + casok, "lost", "the sum of the successful exchanges is %lx, expected %lx", (u64)S.cas, v0 + casok); break; case 4: CHECK(S.c1 == total && S.c2 == total, "exclusion", "%lu of %lu sections counted", S.c1, total); break; case 5: CHECK(S.c1 == total && (u64)S.lp == total * 2, "exclusion", "%lu of %lu sections counted, pointer %p", S.c1, total, S.lp); break; default: CHECK((u64)S.ptr == v0 + psum, "lost", "the sum is %p, expected %lx", S.ptr, v0 + psum); }
  c.count("operations", total); c.nontrivial();
}
#else
#include "sched_api.h"
static struct { long v; sas_spin_lock_t l; sas_lock_ptr_t lp; u64 in, n; } S;
// some order of the operations must explain every result and the final value
PBT_TEST_X(B03, schedules, 2, NOSTORE, 15, 10) {
  struct O { int op; u64 a, b, r, s, e; }; int T = (int)c.range(2, 4); u64 v0 = value(c); std::vector<std::vector<O>> plan(T); u64 total = 0; u64 k = c.below(3); for (auto &p : plan) { u64 n = c.range(1, 5); for (u64 i = 0; i < n; i++) { int op = (int)c.below(NOPS); u64 a = k == 0 ? c.below(4) : k == 1 ? v0 + c.below(3) : value(c); p.push_back({op, a, k == 2 ? value(c) : v0 + c.below(3), 0, 0, 0}); total++; } }
  S.v = (long)v0; std::vector<std::function<void()>> fs; for (int t = 0; t < T; t++) fs.push_back([&, t] { for (auto &o : plan[t]) { o.s = sched::steps(); o.r = real(o.op, &S.v, o.a, o.b); o.e = sched::steps(); sched::Quiet z; c.log("thread %d: %s(%lx, %lx) -> %lx", t, nm[o.op], o.a, o.b, o.r); } }); sched::run(c, fs);
  std::set<std::vector<u64>> dead; std::vector<u64> at(T, 0); std::function<bool(u64)> go = [&](u64 v) { bool end = true; for (int t = 0; t < T; t++) end &= at[t] == plan[t].size(); if (end) return v == (u64)S.v; std::vector<u64> key = at; key.push_back(v); if (!dead.insert(key).second) return false;
    for (int t = 0; t < T; t++) if (at[t] < plan[t].size()) { O &o = plan[t][at[t]]; bool first = true; for (int q = 0; q < T && first; q++) if (q != t && at[q] < plan[q].size() && plan[q][at[q]].e < o.s) first = false; if (!first) continue; u64 w = v, r = model(o.op, w, o.a, o.b); if (!quietop(o.op) && r != o.r) continue; at[t]++; if (go(w)) return true; at[t]--; } return false; };
  CHECK(go(v0), "order", "no order of the %lu operations from %lx explains the results and the final value %lx", total, v0, (u64)S.v); c.count("operations", total); if (sched::switches() > T) c.nontrivial();
}
PBT_TEST_X(B03, exclusion, 1, NOSTORE, 15, 10) {
  memset(&S, 0, sizeof S); int T = (int)c.range(2, 4); bool ptr = c.chance(1, 2); std::vector<std::vector<int>> plan(T); u64 total = 0; for (auto &p : plan) { u64 n = c.range(1, 5); for (u64 i = 0; i < n; i++) p.push_back((int)c.below(4)), total++; } if (ptr) sas_lock_ptr_init(reg(&S.lp)); else sas_spin_lock_init(reg(&S.l)); u64 inside = 0, busy = 0, came = 0, refused = 0; std::vector<std::function<void()>> fs;
  for (int t = 0; t < T; t++) fs.push_back([&, t] { for (int k : plan[t]) { { sched::Quiet z; busy++; came++; } u64 cur = 0; bool know = false;
    if (ptr) { switch (k) { case 0: cur = (u64)sas_lock_ptr(reg(&S.lp)); know = true; break; case 1: sas_lock_ptr_with_yield(reg(&S.lp)); break; case 2: for (;;) { bool alone; u64 b0; { sched::Quiet z; alone = busy == 1; b0 = came; } int r = sas_trylock_ptr(reg(&S.lp)); if (!r) break; { sched::Quiet z; refused++; CHECK(!(alone && b0 == came), "trylock", "a free pointer is refused"); } sched::yield(); } break; default: { cur = 0; know = false; sas_set_unlocked_ptr(reg(&S.lp), (void *)0x7770); } } }
    else switch (k) { case 0: sas_spin_lock(reg(&S.l)); break; case 1: sas_spin_lock_with_yield(reg(&S.l)); break; case 2: for (;;) { bool alone; u64 b0; { sched::Quiet z; alone = busy == 1; b0 = came; } int r = sas_spin_trylock(reg(&S.l)); if (!r) break; { sched::Quiet z; refused++; CHECK(!(alone && b0 == came), "trylock", "a free lock is refused"); } sched::yield(); } break; default: gen::__arch_sas_spin_lock(reg(&S.l)); }
    { sched::Quiet z; inside++; c.log("thread %d in", t); CHECK(inside == 1, "exclusion", "%lu threads hold the lock", inside); if (know) CHECK(cur == S.n * 2, "pointer", "the locked pointer is %lx, expected %lx", cur, S.n * 2); } sched::yield(); if (ptr) { { sched::Quiet z; S.n++; } u64 nn; { sched::Quiet z; nn = S.n; } sas_set_locked_ptr(reg(&S.lp), (void *)(nn * 2)); { sched::Quiet z; CHECK((u64)S.lp == (nn * 2 | 1), "pointer", "the pointer is %p while held, expected %lx", S.lp, nn * 2 | 1); } } { sched::Quiet z; inside--; } if (ptr) sas_unlock_ptr(reg(&S.lp)); else sas_spin_unlock(reg(&S.l)); sched::Quiet z; busy--; } });
  sched::run(c, fs); if (ptr) CHECK((u64)S.lp == total * 2, "pointer", "the pointer is %p, expected %lx", S.lp, total * 2); else CHECK(!S.l, "free", "the lock is not free"); c.count("sections", total); if (sched::switches() > T) c.nontrivial();
}
#endif
