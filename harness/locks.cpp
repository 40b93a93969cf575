// B01 address locks (schedules, "sched" variant), B02 region lock
#define NO_LOCK_WATCH
#include "sas.h"
#include "sched_api.h"
using namespace pbt;
struct LockModel { std::map<u64, std::pair<int, int>> w; std::map<u64, std::map<int, int>> r; };
static void got(Case &c, LockModel &m, int me, u64 a, bool wr) {
  auto &W = m.w[a]; auto &R = m.r[a];
  if (wr) { CHECK(W.second == 0 || W.first == me, "exclusion", "thread %d got the write lock on %lx while thread %d holds it", me, a, W.first); for (auto &x : R) CHECK(x.second == 0 || x.first == me, "exclusion", "thread %d got the write lock on %lx while thread %d reads", me, a, x.first); W.first = me; W.second++; }
  else { CHECK(W.second == 0 || W.first == me, "exclusion", "thread %d got a read lock on %lx while thread %d holds the write lock", me, a, W.first); R[me]++; }
}
struct Step { u64 a; bool wr; int nest; };
// threads lock and unlock a few addresses, some in the same hash slot; one lock at a time (or nested in address order)
PBT_TEST_X(B01, schedules, 4, 0, 20, 10) {
  sas_join(c); int nth = (int)c.range(2, c.thorough ? 5 : 4); int na = (int)c.range(1, 3); std::vector<u64> as; u64 base = (u64)getMemLow() + 0x100000; for (int i = 0; i < na; i++) as.push_back(base + (c.chance(1, 2) ? i * 8 : c.below(1 << 20)));
  std::sort(as.begin(), as.end()); as.erase(std::unique(as.begin(), as.end()), as.end()); na = (int)as.size();
  LockModel m; std::vector<std::vector<Step>> plan(nth); u64 tot = 0;
  for (auto &p : plan) { u64 k = c.range(1, 4); for (u64 i = 0; i < k; i++) p.push_back({c.below(na), c.below(2) != 0, c.rarely(1, 4) ? (int)c.range(1, 3) : 0}); tot += k; }
  for (int t = 0; t < nth; t++) for (auto &s : plan[t]) c.log("thread %d: %s lock %lx, nested %d", t, s.wr ? "write" : "read", as[s.a], s.nest);
  std::vector<std::function<void()>> fs; u64 cells[4] = {0};
  for (int t = 0; t < nth; t++) fs.push_back([&, t] {
    for (auto &s : plan[t]) {
      u64 a = as[s.a]; std::vector<std::pair<u64, bool>> held;
      auto lk = [&](u64 x, bool wr) { SASLock((void *)x, wr ? SasUserLock__WRITE : SasUserLock__READ); sched::Quiet q; got(c, m, t, x, wr); held.push_back({x, wr}); c.log("  %d has %s %lx", t, wr ? "write" : "read", x); };
      lk(a, s.wr);
      for (int k = 0; k < s.nest; k++) { if (k == 1 && s.a + 1 < (u64)na) lk(as[s.a + 1], (s.a + k) & 1); else if (k == 2 && s.wr) lk(a, true); else lk(a, false); }
      { u64 before = cells[s.a]; sched::yield(); if (s.wr) { CHECK(cells[s.a] == before, "exclusion", "data under a write lock changed"); cells[s.a] = before + 1; } else CHECK(cells[s.a] == before, "exclusion", "data under a read lock changed"); }
      while (!held.empty()) { auto h = held.back(); held.pop_back(); { sched::Quiet q; if (h.second && m.w[h.first].second) m.w[h.first].second--; else if (!h.second) m.r[h.first][t]--; c.log("  %d releases %lx", t, h.first); } SASUnlock((void *)h.first); }
    }
  });
  sched::run(c, fs);
  // everything was given back: one thread can take each address alone
  fs.clear(); fs.push_back([&] { for (u64 a : as) { SASLock((void *)a, SasUserLock__WRITE); SASLock((void *)a, SasUserLock__WRITE); SASUnlock((void *)a); SASUnlock((void *)a); SASLock((void *)a, SasUserLock__READ); SASUnlock((void *)a); } }); sched::run(c, fs);
  if (tot > 3) c.nontrivial();
}
// holders that do not let go until the others have had theirs: other addresses and other readers must not wait for them
PBT_TEST_X(B01, independent, 2, 0, 20, 10) {
  sas_join(c); LockModel m; int nth = (int)c.range(2, 4), wait = nth; std::vector<std::vector<u64>> own(nth); std::set<u64> seen; u64 base = getMemLow(); u64 shared = base + 0x100000 + c.below(1 << 16) * 8; seen.insert(shared); int mode = (int)c.below(3);
  for (auto &o : own) { u64 k = c.range(1, 24); for (u64 i = 0; i < k; i++) { u64 a = base + (mode == 0 ? c.below(4096) * 16 : mode == 1 ? c.below(1ull << 45) : c.below(1 << 10) << 20) + 0x200000; if (seen.insert(a).second) o.push_back(a); } }
  int ready = 0; std::vector<std::function<void()>> fs; u64 n = 0; for (auto &o : own) n += o.size();
  for (int t = 0; t < nth; t++) fs.push_back([&, t] {
    bool nest = t & 1;
    for (u64 a : own[t]) { SASLock((void *)a, SasUserLock__WRITE); sched::Quiet q; got(c, m, t, a, true); }
    SASLock((void *)shared, SasUserLock__READ); { sched::Quiet q; got(c, m, t, shared, false); ready++; }
    if (nest) SASLock((void *)shared, SasUserLock__READ);
    while (ready < wait) sched::yield();               // everybody holds everything now
    if (nest) SASUnlock((void *)shared);
    { sched::Quiet q; m.r[shared][t] = 0; } SASUnlock((void *)shared);
    for (u64 a : own[t]) { { sched::Quiet q; m.w[a].second = 0; } SASUnlock((void *)a); }
    SASLock((void *)shared, SasUserLock__WRITE); { sched::Quiet q; got(c, m, t, shared, true); m.w[shared].second = 0; } SASUnlock((void *)shared);
  });
  c.log("%d threads hold %lu write locks and one read lock all at once", nth, n); sched::run(c, fs, 1000000); if (n > 4) c.nontrivial();
}
// more readers than the lock has slots for
PBT_TEST_X(B01, readers, 1, 0, 20, 10) {
  sas_join(c); LockModel m; int nth = (int)c.range(8, 14); u64 a = (u64)getMemLow() + 0x100000; std::vector<std::function<void()>> fs; int writers = (int)c.below(4); int rounds = (int)c.range(1, 2);
  c.log("%d threads, %d of them write, %d rounds", nth, writers, rounds);
  for (int t = 0; t < nth; t++) fs.push_back([&, t] { bool wr = t % 4 < writers && t < 2 * writers;
    for (int k = 0; k < rounds; k++) { SASLock((void *)a, wr ? SasUserLock__WRITE : SasUserLock__READ); { sched::Quiet q; got(c, m, t, a, wr); } sched::yield(); sched::yield(); { sched::Quiet q; if (wr) m.w[a].second--; else m.r[a][t]--; } SASUnlock((void *)a); } });
  sched::run(c, fs); c.nontrivial();
}
