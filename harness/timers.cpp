// F01: time bases, their conversion, and the clock replacements.
#include "procs.h"
#include <sys/time.h>
#include <time.h>
#include <atomic>
extern "C" {
#include "sphgtod.h"
#include "sphgettime.h"
}
typedef unsigned __int128 u128;
static u64 mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
// a stamp (plus factor) as a whole number of units per second: the exact value lies in [lo, lo + 1)
struct Units { u64 sec, sub; bool exact; };
static Units units(u64 tb, u64 freq, u64 per) { u64 s = tb / freq, r = tb % freq; u128 x = (u128)r * per; return {s, (u64)(x / freq), x % freq == 0}; }
// v must be the exact value rounded down, or to the nearest unit
static bool right(u64 tb, u64 freq, u64 per, u64 sec, u64 sub) {
  if (sub >= per) return false;
  Units e = units(tb, freq, per); if (sec == e.sec && sub == e.sub) return true;
  if (e.exact) return false;
  u128 r2 = (u128)(tb % freq) * per % freq * 2; if (r2 < freq) return false;
  u64 s = e.sec, u = e.sub + 1; if (u == per) { u = 0; s++; } return sec == s && sub == u;
}
static u64 stamp(Case &c, u64 freq) {
  switch (c.below(7)) {
    case 0: return c.below(1000);
    case 1: return c.bits64();
    case 2: { u64 s = c.below(1ull << 33); u64 d = c.below(5); return s * freq + d - 2; }                                // around a full second
    case 3: { u64 s = c.below(1ull << 33), m = c.below(1000000); return s * freq + m * (freq / 1000000) + c.below(5) - 2; }  // around a full microsecond
    case 4: return sphgettimer() + c.below(1000) - 500;
    case 5: return c.below(1ull << 32) * freq + c.below(freq);
    default: return ~0ull - c.below(freq * 2);
  }
}
PBT_TEST_X(F01, convert, 3, pbt::NOSTORE, 20, 10) {
  u64 freq = sphgetcpufreq(); CHECK(freq, "frequency", "the frequency is reported as 0");
  CHECK(sphfastcpufreq() == freq, "frequency", "sphfastcpufreq says %llu and sphgetcpufreq %lu", sphfastcpufreq(), freq);
  int n = 40 + c.below(100); c.nontrivial();
  for (int i = 0; i < n; i++) {
    u64 t = stamp(c, freq), f = 0;
    switch (c.below(5)) { case 0: break; case 1: f = sphget_gtod_conv_factor(); break; case 2: f = sphget_gettime_conv_factor(); break; case 3: f = c.bits64(); break; case 4: f = c.below(1ull << 31) * freq - t; break; }
    u64 tb = t + f; if (i < 8) c.log("stamp %lx, factor %lx, frequency %lu", t, f, freq);
    struct { u64 a; timeval v; u64 b; } g = {0x5a5a5a5a5a5a5a5aull, {-1, -1}, 0xa5a5a5a5a5a5a5a5ull}; struct { u64 a; timespec v; u64 b; } k = {0x5a5a5a5a5a5a5a5aull, {-1, -1}, 0xa5a5a5a5a5a5a5a5ull};
    int r1 = sphtb2gtod_withfactor(&g.v, t, f), r2 = sphtb2gettime_withfactor(&k.v, t, f);
    CHECK(r1 == 0 && r2 == 0, "result", "converting stamp %lx with factor %lx returned %d and %d", t, f, r1, r2);
    CHECK(g.a == 0x5a5a5a5a5a5a5a5aull && g.b == 0xa5a5a5a5a5a5a5a5ull && k.a == g.a && k.b == g.b, "overrun", "memory around the result changed");
    CHECK(right(tb, freq, 1000000, g.v.tv_sec, g.v.tv_usec), "micro", "stamp %lx with factor %lx is %lu ticks of 1/%lu s, but the conversion says %ld s %ld us", t, f, tb, freq, (long)g.v.tv_sec, (long)g.v.tv_usec);
    CHECK(right(tb, freq, 1000000000, k.v.tv_sec, k.v.tv_nsec), "nano", "stamp %lx with factor %lx is %lu ticks of 1/%lu s, but the conversion says %ld s %ld ns", t, f, tb, freq, (long)k.v.tv_sec, (long)k.v.tv_nsec);
    // back again, up to the rounding
    u128 bg = (u128)g.v.tv_sec * freq + (u128)g.v.tv_usec * freq / 1000000, bk = (u128)k.v.tv_sec * freq + (u128)k.v.tv_nsec * freq / 1000000000;
    u64 eg = bg > tb ? (u64)(bg - tb) : (u64)(tb - bg), ek = bk > tb ? (u64)(bk - tb) : (u64)(tb - bk);
    CHECK(eg <= freq / 1000000 + 1 && ek <= freq / 1000000000 + 1, "inverse", "stamp %lx with factor %lx converts back with errors of %lu and %lu ticks", t, f, eg, ek);
    // a later stamp is no earlier
    u64 d = c.rarely(1, 2) ? c.bits64() : c.below(3000); if (tb + d >= tb) {
      timeval g2; timespec k2; sphtb2gtod_withfactor(&g2, t + d, f); sphtb2gettime_withfactor(&k2, t + d, f);
      CHECK(g2.tv_sec > g.v.tv_sec || (g2.tv_sec == g.v.tv_sec && g2.tv_usec >= g.v.tv_usec), "monotone", "a stamp %lu ticks later converts to an earlier time of day (%ld.%06ld after %ld.%06ld)", d, (long)g2.tv_sec, (long)g2.tv_usec, (long)g.v.tv_sec, (long)g.v.tv_usec);
      CHECK(k2.tv_sec > k.v.tv_sec || (k2.tv_sec == k.v.tv_sec && k2.tv_nsec >= k.v.tv_nsec), "monotone", "a stamp %lu ticks later converts to an earlier time (%ld.%09ld after %ld.%09ld)", d, (long)k2.tv_sec, (long)k2.tv_nsec, (long)k.v.tv_sec, (long)k.v.tv_nsec); }
    c.count("conversions", 2);
  }
}
// ticks since some origin of what the clock shows, at freq ticks a second
static bool after(u64 s1, u64 u1, u64 s2, u64 u2) { return s1 > s2 || (s1 == s2 && u1 > u2); }
struct Bad { std::atomic<int> set; char msg[300]; };
static void readings(Bad *b, Rng r, int n) {
  u64 freq = sphgetcpufreq(), fg = sphget_gtod_conv_factor(), ft = sphget_gettime_conv_factor(), last = 0; timeval lg = {0, 0}; timespec lt = {0, 0};
#define BAD(...) do { if (!b->set.exchange(1)) snprintf(b->msg, sizeof b->msg, __VA_ARGS__); return; } while (0)
  for (int i = 0; i < n; i++) {
    if (sphgetcpufreq() != freq || sphfastcpufreq() != freq) BAD("the frequency changed");
    if (sphget_gtod_conv_factor() != fg || sphget_gettime_conv_factor() != ft) BAD("a conversion factor changed");
    u64 t1 = sphgettimer(); if (t1 < last) BAD("stamp %lu after %lu", t1, last);
    switch (r.below(4)) {
      case 0: { timeval v = {-1, -1}; struct timezone tz; if (sphgtod(&v, r.chance(1, 2) ? &tz : nullptr)) BAD("sphgtod failed"); u64 t2 = sphgettimer(); last = t2; Units a = units(t1 + fg, freq, 1000000), z = units(t2 + fg, freq, 1000000); if (z.sub + 1 == 1000000) { z.sub = 0; z.sec++; } else z.sub++;
        if (v.tv_usec < 0 || v.tv_usec > 999999 || after(a.sec, a.sub, v.tv_sec, v.tv_usec) || after(v.tv_sec, v.tv_usec, z.sec, z.sub)) BAD("sphgtod says %ld.%06ld between %lu.%06lu and %lu.%06lu", (long)v.tv_sec, (long)v.tv_usec, a.sec, a.sub, z.sec, z.sub);
        if (after(lg.tv_sec, lg.tv_usec, v.tv_sec, v.tv_usec)) BAD("sphgtod ran backwards: %ld.%06ld after %ld.%06ld", (long)v.tv_sec, (long)v.tv_usec, (long)lg.tv_sec, (long)lg.tv_usec); lg = v; break; }
      case 1: { timespec v = {-1, -1}; if (sphgettime(&v)) BAD("sphgettime failed"); u64 t2 = sphgettimer(); last = t2; Units a = units(t1 + ft, freq, 1000000000), z = units(t2 + ft, freq, 1000000000); if (!z.exact) { if (z.sub + 1 == 1000000000) { z.sub = 0; z.sec++; } else z.sub++; }
        if (v.tv_nsec < 0 || v.tv_nsec > 999999999 || after(a.sec, a.sub, v.tv_sec, v.tv_nsec) || after(v.tv_sec, v.tv_nsec, z.sec, z.sub)) BAD("sphgettime says %ld.%09ld between %lu.%09lu and %lu.%09lu", (long)v.tv_sec, (long)v.tv_nsec, a.sec, a.sub, z.sec, z.sub);
        if (after(lt.tv_sec, lt.tv_nsec, v.tv_sec, v.tv_nsec)) BAD("sphgettime ran backwards: %ld.%09ld after %ld.%09ld", (long)v.tv_sec, (long)v.tv_nsec, (long)lt.tv_sec, (long)lt.tv_nsec); lt = v; break; }
      case 2: { u64 m1 = mono(), t = sphgettimer(), m2 = mono(); last = t; if (freq == 1000000000 && (t < m1 || t > m2)) BAD("the time base says %lu between %lu and %lu on the monotonic clock", t, m1, m2); break; }
      default: { if (r.chance(1, 20)) usleep(r.below(300)); else for (volatile int k = r.below(3000); k > 0; k--) ; last = sphgettimer(); }
    }
  }
#undef BAD
}
PBT_TEST_X(F01, clocks, 2, pbt::NOSTORE | pbt::NONDET, 20, 10) {
  int threads = 1 + c.below(4), n = 50 + c.below(400); bool procs = c.rarely(1, 3); u64 seed = c.raw(); Bad *b = shared<Bad>(); c.log("%d readings in each of %d %s", n, threads, procs ? "processes" : "threads");
  if (procs) { std::vector<int> ps; for (int i = 0; i < threads; i++) ps.push_back(c.start([&, i] { readings(b, Rng(seed + i), n); })); for (int p : ps) c.wait(p); }
  else { std::vector<pthread_t> ts; struct A { Bad *b; u64 s; int n; }; std::vector<A> as; for (int i = 0; i < threads; i++) as.push_back({b, seed + i, n}); for (int i = 0; i < threads; i++) { pthread_t t; pthread_create(&t, nullptr, [](void *p) -> void * { A *a = (A *)p; readings(a->b, Rng(a->s), a->n); return nullptr; }, &as[i]); ts.push_back(t); } for (auto t : ts) pthread_join(t, nullptr); }
  CHECK(!b->set, "clock", "%s", b->msg); c.count("readings", threads * (u64)n); c.nontrivial();
}
// How far the factors that a new process starts with are from the system's clocks (in ns, as seen here).
struct Start { u64 freq; int64_t day, up; int fast; };
extern "C" int pbt_alternate_main(int, char **) {
  Start s; s.freq = sphgetcpufreq(); s.fast = sphfastcpufreq() == s.freq; int64_t bestd = INT64_MAX, bestu = INT64_MAX; s.day = s.up = INT64_MAX;
  if (s.freq) for (int i = 0; i < 200; i++) {
    u64 t1 = sphgettimer(); timespec r, m; clock_gettime(CLOCK_REALTIME, &r); u64 t2 = sphgettimer(); clock_gettime(CLOCK_MONOTONIC, &m); u64 t3 = sphgettimer();
    auto err = [&](timespec &x, u64 a, u64 b, u64 f) { __int128 want = (__int128)x.tv_sec * 1000000000 + x.tv_nsec, is = (__int128)((a / 2 + b / 2) + f) * 1000000000 / s.freq; __int128 d = is - want; return d > INT64_MAX ? INT64_MAX : d < INT64_MIN ? INT64_MIN : (int64_t)d; };
    if ((int64_t)(t2 - t1) < bestd) { bestd = t2 - t1; s.day = err(r, t1, t2, sphget_gtod_conv_factor()); }
    if ((int64_t)(t3 - t2) < bestu) { bestu = t3 - t2; s.up = err(m, t2, t3, sphget_gettime_conv_factor()); }
  }
  return write(1, &s, sizeof s) == sizeof s ? 0 : 1;
}
PBT_TEST_X(F01, startup, 1, pbt::NOSTORE | pbt::NONDET, 30, 20) {
  // a start can be delayed between the two readings it compares, but not every time
  int64_t bd = INT64_MAX, bu = INT64_MAX; bool nap = c.rarely(1, 2); if (nap) usleep(c.below(200000)); c.nontrivial();
  for (int i = 0; i < 12 && (i < 2 || bd > 100000 || bu > 100000); i++) {
    int pf[2]; if (pipe(pf)) c.discard(); pid_t p = fork();
    if (p == 0) { dup2(pf[1], 1); close(pf[0]); close(pf[1]); setenv("PBT_ALTERNATE", "1", 1); execl("/proc/self/exe", "timers", (char *)nullptr); _exit(99); }
    close(pf[1]); Start s; ssize_t k = read(pf[0], &s, sizeof s); close(pf[0]); int st; waitpid(p, &st, 0);
    CHECK(k == sizeof s && WIFEXITED(st) && WEXITSTATUS(st) == 0, "start", "a new process did not get through reading its clocks (status %x)", st);
    CHECK(s.freq && s.fast, "frequency", "a new process sees frequency %lu", s.freq);
    c.log("a new process is %ld ns off the time of day, %ld ns off the monotonic time", (long)s.day, (long)s.up); bd = std::min<int64_t>(bd, s.day < 0 ? (s.day == INT64_MIN ? INT64_MAX : -s.day) : s.day); bu = std::min<int64_t>(bu, s.up < 0 ? (s.up == INT64_MIN ? INT64_MAX : -s.up) : s.up); c.count("processes started");
  }
  CHECK(bd <= 2000000, "anchor-day", "the time of day of new processes is off by at least %ld ns", bd);
  CHECK(bu <= 2000000, "anchor-up", "the monotonic time of new processes is off by at least %ld ns", bu);
}
