// Choice-sequence based property testing for the sphde harnesses.
//
// A case is a function of a sequence of integer choices.  While generating,
// choices come from a seeded generator and are recorded; a recorded sequence
// can be replayed and shrunk (values deleted / lowered; a missing value reads 0).
// Every case runs in a child process of its own, in its own scratch store, so a
// crash, an endless loop or a deadlock of the code under test is an outcome and
// not the end of the run.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

enum Status { RUNNING = 0, OK = 1, FAIL = 2, DISCARD = 3, CRASH = 4, HANG = 5 };

constexpr size_t MAXCHOICE = 1u << 17;
constexpr size_t MAXTRACE = 1u << 16;
constexpr int MAXCOUNTER = 48;

struct Shared {
  volatile uint32_t status;
  volatile uint32_t failing;         // set by the first failing thread/process
  char sig[96];
  char msg[2048];
  volatile uint64_t nchoice;
  uint64_t choice[MAXCHOICE];
  volatile uint64_t ntrace;
  char trace[MAXTRACE];
  uint32_t nontrivial;
  uint64_t hash;
  uint32_t ncounter;
  uint64_t rng;
  char cname[MAXCOUNTER][40];
  uint64_t cval[MAXCOUNTER];
};

struct Case {
  Shared *sh;
  const uint64_t *in; size_t nin; bool replaying;
  bool thorough;
  int worker;
  std::vector<std::string> stores;   // private store directories
  double scale;                       // how much of the time budget is gone (0..1)

  uint64_t raw();
  uint64_t below(uint64_t n);                       // [0,n)
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; } // shrinks towards true if num>0
  bool rarely(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks towards false
  // weighted choice; shrinks towards index 0
  int weighted(const int *w, int n);
  uint64_t bits64();                                // interesting 64-bit value

  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void discard();
  [[noreturn]] void pass();                         // end the case at once, successfully
  // runs f in a process of its own (which may draw choices as long as nobody else does) and waits for it
  template <class F> void child(F f) { wait(start(f)); }
  template <class F> int start(F f) { int p = fork_(); if (p == 0) { f(); leave(0); } return p; }
  void wait(int pid);                               // fails the case if the process did not end well
  bool wait_killed(int pid);                        // same, but being killed by SIGKILL is fine (returns true)
  int fork_(); [[noreturn]] void leave(int rc);
  void nontrivial() { sh->nontrivial = 1; }
  void count(const char *name, uint64_t k = 1);
  void mix(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x9E3779B97F4A7C15ull; sh->hash ^= sh->hash >> 29; }
};

// generator for threads and concurrent processes, seeded by a choice
struct Rng { uint64_t s; Rng(uint64_t seed) : s(seed * 2 + 1) {} uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; } bool chance(unsigned a, unsigned b) { return below(b) < a; } };

typedef void (*Fn)(Case &);
enum Flags { NONDET = 1,        // real concurrency: a failure need not repeat to be one
             NOSTORE = 2,       // does not touch a store: no clean-up between cases
             PROBE = 4 };       // a known-finding probe, not part of the search
struct Test { const char *prop, *name; Fn fn; double weight; unsigned flags; int wall; int cpu; Test *next; };
void add(Test *t);
struct Reg { Test t; Reg(const char *p, const char *n, Fn f, double w, unsigned fl, int wall, int cpu)
  : t{p, n, f, w, fl, wall, cpu, nullptr} { add(&t); } };

extern Case *cur;                                   // the running case (in the child)
extern void (*at_end)(Case &);                      // run after every case that came to its end

} // namespace pbt

#define PBT_TEST_X(prop, name, weight, flags, wall, cpu) \
  static void t_##prop##_##name(pbt::Case &c); \
  static pbt::Reg r_##prop##_##name(#prop, #name, t_##prop##_##name, weight, flags, wall, cpu); \
  static void t_##prop##_##name(pbt::Case &c)
#define PBT_TEST(prop, name, weight) PBT_TEST_X(prop, name, weight, 0, 20, 10)
// returns by c.pass() if the finding is gone, c.fail() if it is still there
#define PBT_PROBE(prop, name) PBT_TEST_X(prop, name, 0, pbt::PROBE, 5, 3)

#define CHECK(cond, sig, ...) do { if (!(cond)) c.fail(sig, __VA_ARGS__); } while (0)
#endif
