#include "sched_api.h"
#include <cstdint>
#include <ctime>
#include <semaphore.h>
#include <sched.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <execinfo.h>
namespace sched {
__thread int me = -1, quiet = 0;
enum St { RUNNABLE, BLOCKED, DONE };
struct T { int st; void *sem; int go; void *bt[8]; int nbt; };
static T t[32]; static int nt; static bool on; static pbt::Case *cs;
static uint64_t left, nsteps, limit, burst, budget; static int nsw; static int mode;
static void fwait(int *w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
uint64_t steps() { return nsteps; }
int switches() { return nsw; }
static void draw() {                                  // how far until the next preemption
  if (!budget) { left = 0; return; }
  budget--;
  int b = (int)cs->below(mode == 0 ? 11 : mode == 1 ? 6 : 8);
  if (b == 0) { left = 0; budget = 0; return; }       // none
  left = 1 + cs->below(1ull << (b - 1));
}
static void give(int to) {                            // to != me; returns when we are given the turn again
  int self = me; nsw++; burst = 0; fwake(&t[to].go);
  if (self >= 0 && t[self].st != DONE) fwait(&t[self].go);
}
static int others(int *v) { int n = 0; for (int i = 1; i < nt; i++) { int k = (me + i) % nt; if (t[k].st == RUNNABLE) v[n++] = k; } return n; }
static void report() {
                                // where the blocked threads wait
  for (int i = 0; i < nt; i++) if (t[i].st == BLOCKED) { char **y = backtrace_symbols(t[i].bt, t[i].nbt);
    for (int k = 2; y && k < t[i].nbt; k++) { const char *p = strchr(y[k], '('); cs->log("  thread %d waits in %s", i, p ? p : y[k]); } }
}
static void go_on() {                                 // we cannot run: somebody else must
  int v[32], n = others(v);
  if (!n) {
    for (int i = 0; i < nt; i++) if (t[i].st == BLOCKED) { std::string s; for (int k = 0; k < nt; k++) s += t[k].st == DONE ? " done" : t[k].st == BLOCKED ? " blocked" : " running"; report(); cs->fail("deadlock", "no thread can go on:%s (after %lu accesses)", s.c_str(), nsteps); }
    return;                                           // all done
  }
  give(v[n > 1 && budget ? cs->below(n) : 0]);
}
void yield() { if (me < 0 || !on) return; nsteps++; if (nsteps > limit) cs->fail("livelock", "the threads do not finish (%lu accesses)", nsteps); int v[32], n = others(v); if (n) give(v[0]); }
static inline void point() {
  if (me < 0 || quiet || !on) return;
  if (++nsteps > limit) cs->fail("livelock", "the threads do not finish (%lu accesses)", nsteps);
  if (++burst > 4000) { yield(); return; }            // fairness: nobody spins for ever
  if (left && --left == 0) { int v[32], n = others(v); draw(); if (n) give(v[n > 1 ? cs->below(n) : 0]); }
}
extern char bss_lo[] __asm__("__data_start"), bss_hi[] __asm__("_end");
static inline void access(const void *a) {
  uint64_t x = (uint64_t)a;
  if (x - 0x400000000000ull < 0x100000000000ull || x - 0x600000000000ull < 0x80000000ull || x - (uint64_t)bss_lo < (uint64_t)(bss_hi - bss_lo)) point();
}
struct Arg { int i; const std::function<void()> *f; };
static void *tmain(void *p) {
  Arg *a = (Arg *)p; quiet = 0; me = a->i; fwait(&t[me].go);
  (*a->f)();
  quiet++; t[me].st = DONE; go_on(); return nullptr;
}
void run(pbt::Case &c, const std::vector<std::function<void()>> &fs, uint64_t maxsteps) {
  cs = &c; nt = (int)fs.size(); nsteps = 0; limit = maxsteps; nsw = 0; burst = 0;
  mode = (int)c.below(3); budget = mode == 0 ? c.below(8) : mode == 1 ? 400 : c.below(60);
  draw(); int first = nt > 1 ? (int)c.below(nt) : 0;
  std::vector<Arg> as(nt); std::vector<pthread_t> ps(nt);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < nt; i++) { t[i].st = RUNNABLE; t[i].sem = nullptr; t[i].go = 0; as[i] = {i, &fs[i]}; }
  on = true;
  for (int i = 0; i < nt; i++) if (pthread_create(&ps[i], &at, tmain, &as[i])) c.discard();
  fwake(&t[first].go);
  for (int i = 0; i < nt; i++) pthread_join(ps[i], nullptr);
  on = false; c.count("accesses", nsteps); c.count("switches", nsw);
}
static bool blocked_wait(sem_t *s) { t[me].st = BLOCKED; t[me].sem = s; quiet++; t[me].nbt = backtrace(t[me].bt, 8); quiet--; go_on(); return true; }
}
using namespace sched;
extern "C" {
void verif_sched_asm(void) { point(); }
int __real_sem_wait(sem_t *); int __real_sem_post(sem_t *); int __real_sched_yield(void);
int __wrap_sem_wait(sem_t *s) {
  if (me < 0 || !on) return __real_sem_wait(s);
  point(); while (sem_trywait(s)) blocked_wait(s);
  return 0;
}
int __wrap_sem_post(sem_t *s) {
  if (me < 0 || !on) return __real_sem_post(s);
  point(); int r = __real_sem_post(s);
  for (int i = 0; i < nt; i++) if (t[i].st == BLOCKED && t[i].sem == s) { t[i].st = RUNNABLE; t[i].sem = nullptr; }
  return r;
}
int __wrap_sched_yield(void) { if (me < 0 || !on) return __real_sched_yield(); yield(); return 0; }
int __wrap_usleep(unsigned) { yield(); return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { yield(); return 0; }

#define A(n) void __tsan_read##n(void *a) { access(a); } void __tsan_write##n(void *a) { access(a); } void __tsan_unaligned_read##n(void *a) { access(a); } void __tsan_unaligned_write##n(void *a) { access(a); } \
  void __tsan_volatile_read##n(void *a) { access(a); } void __tsan_volatile_write##n(void *a) { access(a); } void __tsan_unaligned_volatile_read##n(void *a) { access(a); } void __tsan_unaligned_volatile_write##n(void *a) { access(a); } void __tsan_read_write##n(void *a) { access(a); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, unsigned long n) { access(a); }
void __tsan_write_range(void *a, unsigned long n) { access(a); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define O __ATOMIC_SEQ_CST
#define B(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty *a, int) { access((void *)a); return __atomic_load_n(a, O); } \
  void __tsan_atomic##n##_store(volatile ty *a, ty v, int) { access((void *)a); __atomic_store_n(a, v, O); } \
  ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int) { access((void *)a); return __atomic_exchange_n(a, v, O); } \
  ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_add(a, v, O); } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_sub(a, v, O); } \
  ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_and(a, v, O); } \
  ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_or(a, v, O); } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_xor(a, v, O); } \
  ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int) { access((void *)a); return __atomic_fetch_nand(a, v, O); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int, int) { access((void *)a); return __atomic_compare_exchange_n(a, e, v, 0, O, O); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int, int) { access((void *)a); return __atomic_compare_exchange_n(a, e, v, 0, O, O); } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty e, ty v, int, int) { access((void *)a); __atomic_compare_exchange_n(a, &e, v, 0, O, O); return e; }
B(8, uint8_t) B(16, uint16_t) B(32, uint32_t) B(64, uint64_t)
}
