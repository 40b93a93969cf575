// A05: joining, leaving, removing and resetting stores; several processes, several stores, real files
#define NO_LOCK_WATCH
#include "procs.h"
struct Store { int exists; World w; Snap s; u64 joins, wiped; };
struct Proc { sem_t go, done; int cmd; u64 a, b; int store, handler, pid, fd0; long hits; };
static sigjmp_buf jb; static volatile long *hits;
static void on_segv(int) { (*hits)++; siglongjmp(jb, 1); }
enum { EXIT, JOIN, STEPS, VERIFY, LEAVE, REMOVE, RESET, LOCK, UNLOCK, FAULT, FINDER };
static void serve(Case &c, Proc &p, Store *st, Snap *fresh) {
  hits = &p.hits; bool stdio = false; (void)stdio;
  if (p.handler) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_segv; sa.sa_flags = p.handler == 2 ? SA_NODEFER : 0; sigaction(SIGSEGV, &sa, nullptr); }
  { RegionLists warm; (void)warm; fds(); mapped(); }
  for (;;) { while (sem_wait(&p.go)) ;
    Store &S = st[p.store < 0 ? 0 : p.store]; const std::string &dir = c.stores[p.store < 0 ? 0 : p.store];
    auto shape = [&](const char *when) { auto f = files(dir); RegionLists r; r.load(); std::vector<std::string> e; for (auto &x : r.segs) for (u64 a = x.a; a < x.a + x.n; a += 0x10000000) { char b[40]; snprintf(b, sizeof b, "SAS%05lX.DAT", (a - getMemLow()) >> 28); e.push_back(b); } std::sort(e.begin(), e.end()); std::string sf, se; for (auto &x : f) sf += x + " "; for (auto &x : e) se += x + " "; CHECK(f == e, "files", "%s the directory holds %s and the region has the segments %s", when, sf.c_str(), se.c_str()); };
    auto gone = [&](const char *when) { std::string m = mapped(); CHECK(m.empty(), "mapped", "%s still mapped: %s", when, m.c_str()); int n = fds(); CHECK(n == p.fd0, "descriptors", "%s %d descriptors are open, %d before joining", when, n, p.fd0); };
    switch (p.cmd) {
      case EXIT: return;
      case JOIN: {
        bool again = p.b & 1; int how = (int)(p.b >> 1); if (!again) p.fd0 = fds(); int rc;
        std::string n = dir; if (how == 1) n += "/";
        if (how == 2) { setenv("SASSTOREPATH", dir.c_str(), 1); rc = SASJoinRegion(); } else if (how == 3) { unsetenv("SASSTOREPATH"); CHECK(!chdir(dir.c_str()), "test", "chdir"); rc = SASJoinRegion(); } else if (how == 4) { setenv("SASSTOREPATH", (dir + "/").c_str(), 1); rc = SASJoinRegion(); } else rc = SASJoinRegionByName(n.c_str());
        CHECK(rc == 0, "join", "joining %s store = %d", S.exists ? "an existing" : "a new", rc);
        Snap x; snap(x);
        if (!S.exists) { if (fresh->n[4]) same(c, *fresh, x, "fresh", "a new store is not empty"); else *fresh = x; S.exists = 1; memset(&S.w, 0, sizeof S.w); S.s = x; CHECK(getSASFinder() == nullptr, "fresh", "a new store has a root object already"); }
        else { same(c, S.s, x, "attach", "an existing store is not as it was left"); world::verify(c, S.w); }
        shape("after joining"); CHECK(lock_table(dir), "locks", "no lock table after joining"); break; }
      case STEPS: for (u64 i = 0; i < p.a; i++) world::step(c, S.w, 28); snap(S.s); break;
      case VERIFY: { Snap x; snap(x); same(c, S.s, x, "verify", "unchanged"); world::verify(c, S.w); shape("now"); break; }
      case LEAVE: SASCleanUp(); gone("after leaving"); break;
      case REMOVE: { SASRemove(); gone("after removing the store"); auto f = files(dir); CHECK(f.empty(), "files", "%lu files are left after removing the store (%s)", f.size(), f[0].c_str()); CHECK(!lock_table(dir), "locks", "the lock table is left after removing the store"); S.exists = 0; memset(&S.w, 0, sizeof S.w); break; }
      case RESET: for (u64 i = 0; i < p.a; i++) { if (p.b) SASLock((void *)(getMemLow() + 0x1000 * i + 64), i & 1 ? SasUserLock__WRITE : SasUserLock__READ);
          SASReset(); Snap x; snap(x); same(c, *fresh, x, "reset", "after the reset"); if (i == 0) shape("after the reset"); CHECK(getSASFinder() == nullptr, "reset", "the root object survived the reset"); S.s = x; memset(&S.w, 0, sizeof S.w); }
        break;
      case LOCK: SASLock((void *)p.a, p.b ? SasUserLock__WRITE : SasUserLock__READ); break;
      case UNLOCK: SASUnlock((void *)p.a); break;
      case FAULT: { p.hits = 0; u64 a = p.a; if (!sigsetjmp(jb, 1)) { *(volatile int *)a; c.fail("test", "no fault at %lx", a); } CHECK(p.hits == 1, "handler", "the program's own SIGSEGV handler ran %ld times for a fault at %lx", p.hits, a); break; }
    }
    sem_post(&p.done); }
}
PBT_TEST_X(A05, lives, 6, 0, 40, 20) {
  int P = (int)c.range(1, 3), NS = (int)c.range(1, 3); Proc *p = shared<Proc>(P); Store *st = shared<Store>(3); Snap *fresh = shared<Snap>(); u64 lockaddr = getMemLow();
  auto spawn = [&](int i) { memset(&p[i], 0, sizeof(Proc)); sem_init(&p[i].go, 1, 0); sem_init(&p[i].done, 1, 0); p[i].store = -1; p[i].handler = (int)c.below(3); p[i].pid = c.start([&, i] { serve(c, p[i], st, fresh); }); };
  auto post = [&](int i, int cmd, u64 a, u64 b) { p[i].cmd = cmd; p[i].a = a; p[i].b = b; sem_post(&p[i].go); };
  auto finish = [&](int i, int ms) { // 1 when the command is done, 0 when it still runs after ms
    for (int k = 0;; k++) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); u64 ns = ts.tv_nsec + (ms ? std::min(ms, 50) : 50) * 1000000ull; ts.tv_sec += ns / 1000000000; ts.tv_nsec = ns % 1000000000; if (!sem_timedwait(&p[i].done, &ts)) return 1; if (errno != ETIMEDOUT) continue; if (c.sh->status != RUNNING) _exit(3); int s; if (waitpid(p[i].pid, &s, WNOHANG) == p[i].pid) { if (!sem_trywait(&p[i].done)) return 1; if (c.sh->status != RUNNING) _exit(3); c.fail("crash", "process %d died (status %x) in command %d", i, s, p[i].cmd); } if (ms) return 0; } };
  auto tell = [&](int i, int cmd, u64 a = 0, u64 b = 0) { post(i, cmd, a, b); finish(i, 0); };
  static const char *hows[] = {"by name", "by name with a slash", "by SASSTOREPATH", "as the current directory", "by SASSTOREPATH with a slash"};
  for (int i = 0; i < P; i++) spawn(i);
  auto out = [&](int i) { if (p[i].store >= 0 && c.chance(1, 2)) { c.log("process %d leaves", i); tell(i, LEAVE); p[i].store = -1; } else { c.log("process %d is killed", i); kill(p[i].pid, SIGKILL); c.wait_killed(p[i].pid); spawn(i); } };
  u64 rounds = c.range(4, c.thorough ? 60 : 30), wipes = 0, joins = 0; int resets = 0;
  for (u64 r = 0; r < rounds; r++) { int i = (int)c.below(P), s = p[i].store;
    if (s < 0) { int k = (int)c.below(8); if (k == 7) { out(i); continue; }
      if (k == 6 && p[i].handler) { tell(i, FAULT, 8 + c.below(4000)); continue; }
      s = (int)c.below(NS); int how = (int)c.below(5); c.log("process %d joins store %d (%s) %s", i, s, st[s].exists ? "exists" : "new", hows[how]); p[i].store = s; tell(i, JOIN, 0, how * 2); joins++; continue; }
    static const int wt[] = {8, 4, 3, 2, 2, 1, 3, 1, 2};
    switch (c.weighted(wt, 9)) {
      case 0: { u64 k = c.range(1, 10); c.log("process %d: %lu steps in store %d", i, k, s); tell(i, STEPS, k); break; }
      case 1: c.log("process %d compares store %d", i, s); tell(i, VERIFY); break;
      case 2: out(i); break;
      case 3: for (int j = 0; j < P; j++) if (j != i && p[j].store == s) out(j); c.log("process %d removes store %d", i, s); tell(i, REMOVE); p[i].store = -1; wipes++; break;
      case 4: { for (int j = 0; j < P; j++) if (j != i && p[j].store == s) out(j); u64 n = c.rarely(1, 6) ? c.range(2, 90) : 1; bool lk = c.chance(1, 3); c.log("process %d resets store %d, %lu times%s", i, s, n, lk ? ", with locks held" : ""); tell(i, RESET, n, lk); wipes++; resets++; break; }
      case 5: { int how = (int)c.below(3); c.log("process %d joins store %d again", i, s); tell(i, JOIN, 0, how * 2 + 1); break; }
      case 6: if (p[i].handler) { u64 a = c.chance(1, 2) ? 8 + c.below(4000) : 0x7000 + c.below(100) * 8; c.log("process %d faults at %lx, outside the region", i, a); tell(i, FAULT, a); } break;
      case 7: { if (!lock_table(c.stores[s])) c.fail("locks", "no lock table"); break; }
      default: { // locks are exclusive between the processes
        int j = -1; for (int k = 0; k < P; k++) if (k != i && p[k].store == s) j = k;
        u64 a = lockaddr + c.below(1 << 20) * 16; bool w1 = c.below(2), w2 = c.below(2);
        if (j < 0) { c.log("process %d takes and gives back the lock of %lx", i, a); tell(i, LOCK, a, w1); tell(i, UNLOCK, a); break; }
        c.log("process %d holds a %s lock on %lx, process %d wants a %s lock", i, w1 ? "write" : "read", a, j, w2 ? "write" : "read"); tell(i, LOCK, a, w1); post(j, LOCK, a, w2);
        if (w1 || w2) { CHECK(!finish(j, 8), "exclusion", "process %d got the lock while process %d held it", j, i); tell(i, UNLOCK, a); finish(j, 0); } else { finish(j, 0); tell(i, UNLOCK, a); }
        tell(j, UNLOCK, a); } } }
  for (int i = 0; i < P; i++) { if (p[i].store >= 0) tell(i, VERIFY); post(i, EXIT, 0, 0); c.wait(p[i].pid); }
  if (joins > 1 && rounds > 8) c.nontrivial(); c.count("wipes", wipes); c.count("resets", resets);
}

// the files of segments by number and by name, without a region
extern "C" {
#include "sasstname.h"
}
PBT_TEST_X(A05, names, 0.4, 0, 20, 10) {
  struct F { u64 size; bool foreign; }; std::map<std::string, F> m; std::vector<std::string> dirs; std::string path; int made = 0, gone = 0, refused = 0;
  for (int i = 0; i < 2; i++) { std::string d = c.stores[i]; if (c.rarely(1, 4)) for (int k = (int)c.below(1500); k > 0; k--) d += "/."; dirs.push_back(d); }
  CHECK(!chdir(dirs[0].c_str()), "test", "chdir"); char cwd[PATH_MAX]; CHECK(getcwd(cwd, sizeof cwd), "test", "cwd"); dirs[0] = cwd; sasStorePath = nullptr; int fd0 = fds();
  auto number = [&]() -> u64 { switch (c.below(6)) { case 0: return c.below(1 << 20); case 1: return c.bits64(); case 2: return 0xfffff + c.below(3); case 3: return 0x1ffff; default: return c.below(4); } };
  for (u64 i = 0, n = c.range(1, c.thorough ? 80 : 40); i < n; i++) {
    if (c.chance(1, 5)) { int k = (int)c.below(3); free(sasStorePath); sasStorePath = k ? strdup(dirs[k - 1].c_str()) : nullptr; c.log("store path: %s", k == 2 ? "second" : k ? "first" : "none"); }
    std::string dir = sasStorePath ? sasStorePath : dirs[0]; u64 num = number(); char want[64]; snprintf(want, sizeof want, "SAS%05lX.DAT", num);
    std::string full = dir + "/" + want; char got[PATH_MAX]; memset(got, 0x7e, sizeof got); char *r = SASSegNameIndexed(got, num); std::string exp = sasStorePath ? full : std::string(want);
    CHECK(r == got && exp == got && got[exp.size() + 1] == 0x7e, "name", "segment %lx is named %.300s, expected %s", num, got, exp.c_str());
    bool byname = c.chance(1, 2); bool there = m.count(full);
    switch (c.below(6)) {
      case 0: case 1: { int rc = byname ? SASSegStoreCreateByName(got) : SASSegStoreCreate(num); c.log("create %s = %d", want, rc); CHECK((rc == 0) == !there, "name-create", "creating %s = %d although it %s", want, rc, there ? "exists" : "does not exist"); if (!there) { m[full] = {SegmentSize, false}; made++; } else refused++; break; }
      case 2: { int rc = byname ? SASSegStoreRemoveByName(got) : SASSegStoreRemove(num); c.log("remove %s = %d", want, rc); CHECK((rc == 0) == there, "name-remove", "removing %s = %d although it %s", want, rc, there ? "exists" : "does not exist"); if (there) { m.erase(full); gone++; } break; }
      case 3: if (!there) { FILE *f = fopen(full.c_str(), "w"); CHECK(f, "test", "fopen"); fputs("foreign", f); fclose(f); m[full] = {7, true}; c.log("foreign file %s", want); } break;
      default: break; }
    there = m.count(full); int e = byname ? SASSegNameExists(got) : SASSegIndexExists(num); CHECK((e != 0) == there, "name-exists", "%s exists = %d, the history gives %d", want, e, there);
    for (auto &d : dirs) { DIR *q = opendir(d.c_str()); CHECK(q, "test", "opendir"); size_t k = 0; while (dirent *x = readdir(q)) { if (x->d_name[0] == '.' || x->d_type == DT_DIR) continue; k++; std::string p = d + "/" + x->d_name; auto it = m.find(p); CHECK(it != m.end(), "name-files", "there is a file %s", p.c_str()); struct stat st; CHECK(!stat(p.c_str(), &st) && (u64)st.st_size == it->second.size, "name-size", "%s has %ld bytes, expected %lu", p.c_str(), (long)st.st_size, it->second.size); CHECK(st.st_blocks <= 16, "name-sparse", "%s takes %ld blocks", p.c_str(), (long)st.st_blocks); }
      closedir(q); size_t w = 0; for (auto &x : m) if (x.first.compare(0, d.size() + 1, d + "/") == 0 && x.first.find('/', d.size() + 1) == std::string::npos) w++; CHECK(k == w, "name-files", "%zu files in %s, expected %zu", k, d.c_str(), w); }
    int f = fds(); CHECK(f == fd0, "descriptors", "%d descriptors, %d before", f, fd0);
  }
  if (made && gone && refused) c.nontrivial();
}
