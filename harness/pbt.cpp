#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

static Test *tests = nullptr;
Case *cur = nullptr;
void (*at_end)(Case &);
void add(Test *t) { Test **p = &tests; while (*p) p = &(*p)->next; *p = t; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

uint64_t Case::raw() { return splitmix(sh->rng); }
uint64_t Case::below(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t i = sh->nchoice, v;
  if (replaying) v = i < nin ? in[i] % n : 0;
  else v = (n & (n - 1)) == 0 ? raw() & (n - 1) : (uint64_t)(((unsigned __int128)raw() * n) >> 64);
  if (i < MAXCHOICE) { sh->choice[i] = v; sh->nchoice = i + 1; }
  else pass();
  mix(v);
  return v;
}
int Case::weighted(const int *w, int n) {
  int t = 0; for (int i = 0; i < n; i++) t += w[i];
  int v = (int)below(t);
  for (int i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
  return 0;
}
uint64_t Case::bits64() {
  switch (below(6)) {
    case 0: return below(16);
    case 1: { uint64_t b = 1ull << below(64); return b + below(3) - 1; }
    case 2: return ~below(16);
    case 3: { uint64_t hi = below(1ull << 32); return (hi << 32) | below(1ull << 32); }
    case 4: return below(1ull << 32);
    default: { uint64_t b = (1ull << 63) >> below(64); return 0 - b; }
  }
}
void Case::log(const char *fmt, ...) {
  uint64_t n = sh->ntrace; if (n + 200 >= MAXTRACE) return;
  va_list ap; va_start(ap, fmt);
  int k = vsnprintf(sh->trace + n, 180, fmt, ap); va_end(ap);
  if (k < 0) return; if (k > 179) k = 179;
  sh->trace[n + k] = '\n'; sh->trace[n + k + 1] = 0; sh->ntrace = n + k + 1;
}
void Case::fail(const char *sig, const char *fmt, ...) {
  if (__sync_fetch_and_add(&sh->failing, 1) == 0) {
    snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
    __sync_synchronize();
    sh->status = FAIL;
  }
  _exit(3);
}
void Case::discard() { sh->status = DISCARD; _exit(0); }
void Case::pass() { sh->status = OK; _exit(0); }
int Case::fork_() { fflush(nullptr); pid_t p = fork(); if (p < 0) discard(); if (p == 0) prctl(PR_SET_PDEATHSIG, SIGKILL); return p; }
void Case::leave(int rc) { if (!rc && at_end) at_end(*this); _exit(rc); }
void Case::wait(int pid) { if (wait_killed(pid)) fail("child", "a child process was killed"); }
bool Case::wait_killed(int pid) {
  int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) fail("child", "waitpid");
  if (sh->status != RUNNING) _exit(3);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return true;
  if (WIFSIGNALED(st)) fail("crash", "a process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  if (WEXITSTATUS(st)) fail("crash", "a process ended with exit status %d in the middle of the case", WEXITSTATUS(st));
  return false;
}
void Case::count(const char *name, uint64_t k) {
  for (uint32_t i = 0; i < sh->ncounter; i++) if (!strcmp(sh->cname[i], name)) { sh->cval[i] += k; return; }
  if (sh->ncounter < MAXCOUNTER) { uint32_t i = sh->ncounter++; snprintf(sh->cname[i], 40, "%s", name); sh->cval[i] = k; }
}

// ------------------------------------------------------------------ running
static std::string scratch; static bool thorough; static bool verbose;
static int nworkers = 8;
struct Store { std::string path; key_t key; };

struct Result { uint32_t status; std::string sig, msg, trace; std::vector<uint64_t> choices; };

static void clean_store(const Store &s) {
  rename((s.path + ".away").c_str(), s.path.c_str());
  DIR *d = opendir(s.path.c_str());
  if (d) { while (dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue;
      if (unlinkat(dirfd(d), e->d_name, 0)) unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR); } closedir(d); }
  chmod(s.path.c_str(), 0777);
  for (int p : {'L' + 64, 'L' + 32, (int)'L', (int)'R'}) { int id = shmget((s.key & 0xffffff) | (p << 24), 0, 0); if (id != -1) shmctl(id, IPC_RMID, nullptr); }
}

static Shared *sh; static std::vector<Store> mystores; static int myworker; static double gscale;

static Result run_case(Test *t, const uint64_t *in, size_t nin, bool replay, uint64_t seed, double slack) {
  sh->status = RUNNING; sh->failing = 0; sh->sig[0] = sh->msg[0] = 0; sh->nchoice = 0; sh->ntrace = 0; sh->trace[0] = 0;
  sh->rng = seed; sh->nontrivial = 0; sh->hash = hstr(t->name); sh->ncounter = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_SETMASK, &ss, nullptr);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rlim_t cpu = (rlim_t)(t->cpu * slack); rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
    if (!verbose) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
    static Case c; c.sh = sh; c.in = in; c.nin = nin; c.replaying = replay; c.thorough = thorough;
    c.worker = myworker; c.scale = gscale; for (auto &s : mystores) c.stores.push_back(s.path);
    setenv("SASSTOREPATH", mystores[0].path.c_str(), 1);
    if (chdir(mystores[0].path.c_str())) _exit(9);
    cur = &c;
    t->fn(c);
    if (at_end) at_end(c);
    sh->status = OK; _exit(0);
  }
  Result r; r.status = RUNNING;
  if (pid < 0) { r.status = DISCARD; usleep(100000); return r; }
  setpgid(pid, pid);
  double end = now() + t->wall * slack; int st = 0; bool hung = false;
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    double left = end - now();
    if (left <= 0) { hung = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    timespec ts; if (left > 0.5) left = 0.5; ts.tv_sec = 0; ts.tv_nsec = (long)(left * 1e9); if (ts.tv_nsec < 1000000) ts.tv_nsec = 1000000;
    sigtimedwait(&ss, nullptr, &ts);
  }
  kill(-pid, SIGKILL);
  for (double e2 = now() + 5; now() < e2;) {       // reap what the case left behind (we are its subreaper)
    pid_t w = waitpid(-1, nullptr, WNOHANG);
    if (w < 0) break;
    if (w == 0) { kill(-pid, SIGKILL); usleep(200); }
  }
  if (!(t->flags & NOSTORE)) for (auto &s : mystores) clean_store(s);
  r.status = sh->status;
  if (r.status == RUNNING) {
    if (hung || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU))) { r.status = HANG; r.sig = "hang";
      r.msg = hung ? "did not finish (deadlock or endless loop)" : "endless loop (CPU time limit)"; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.status = HANG; r.sig = "hang"; r.msg = "killed"; }
    else { r.status = CRASH; r.sig = "crash";
      char b[80]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
      else snprintf(b, sizeof b, "process ended with exit status %d in the middle of the case", WEXITSTATUS(st));
      r.msg = b; }
  } else if (r.status == FAIL) { r.sig = sh->sig; r.msg = sh->msg; }
  return r;
}
static void keep(Result &r) { r.choices.assign(sh->choice, sh->choice + sh->nchoice); r.trace.assign(sh->trace, sh->ntrace); }
static bool bad(const Result &r) { return r.status == FAIL || r.status == CRASH || r.status == HANG; }

// shrink: same signature must keep failing
static Result shrink(Test *t, Result best, double budget) {
  double end = now() + budget;
  auto attempt = [&](const std::vector<uint64_t> &v) -> bool {
    if (now() > end) return false;
    Result r = run_case(t, v.data(), v.size(), true, 0, 1.0);
    if (!bad(r) || r.sig != best.sig) return false;
    keep(r);
    if (r.choices.size() > v.size()) r.choices.resize(v.size());
    while (!r.choices.empty() && r.choices.back() == 0) r.choices.pop_back();
    best = r; return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // truncate
    for (size_t keepn = 0; keepn < best.choices.size() && now() < end; keepn = keepn ? keepn * 2 : 1) {
      std::vector<uint64_t> v(best.choices.begin(), best.choices.begin() + keepn);
      if (attempt(v)) { progress = true; break; }
    }
    // delete chunks
    for (size_t chunk = std::min<size_t>(256, best.choices.size() / 2 + 1); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.choices.size() && now() < end; ) {
        size_t p = best.choices.size() - chunk - i;
        std::vector<uint64_t> v(best.choices); v.erase(v.begin() + p, v.begin() + p + chunk);
        size_t before = best.choices.size();
        if (attempt(v) && best.choices.size() < before) progress = true; else i += chunk > 4 ? chunk / 2 : 1;
      }
      if (chunk == 1) break;
    }
    // lower values
    for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
      uint64_t x = best.choices[i]; if (!x) continue;
      uint64_t lo = 0; std::vector<uint64_t> v(best.choices); v[i] = 0;
      if (attempt(v)) { progress = true; continue; }
      while (i < best.choices.size() && best.choices[i] - lo > 1 && now() < end) {
        uint64_t mid = lo + (best.choices[i] - lo) / 2; v = best.choices; v[i] = mid;
        uint64_t old = best.choices[i];
        if (attempt(v)) { progress = true; if (i >= best.choices.size() || best.choices[i] >= old) break; } else lo = mid;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
  return o;
}
static std::string json_result(Test *t, const Result &r) {
  std::string o = "{\"test\":\"" + std::string(t->name) + "\",\"sig\":\"" + jesc(r.sig) + "\",\"msg\":\"" + jesc(r.msg) + "\",\"choices\":[";
  for (size_t i = 0; i < r.choices.size(); i++) { if (i) o += ","; o += std::to_string(r.choices[i]); }
  std::string tr = r.trace; if (tr.size() > 20000) tr = tr.substr(0, 4000) + "\n...\n" + tr.substr(tr.size() - 15000);
  o += "],\"trace\":\"" + jesc(tr) + "\"}";
  return o;
}

static std::string read_file(const char *p) { std::string s; FILE *f = fopen(p, "r"); if (!f) return s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

static volatile uint32_t *gstop;

struct Stats { uint64_t evals = 0, discards = 0, unrepro = 0; double secs = 0; std::map<std::string, uint64_t> counters; std::vector<std::string> samples; };

static void worker_main(int w, const std::vector<Test *> &ts, double secs, uint64_t seed) {
  myworker = w;
  std::string out = scratch + "/w" + std::to_string(w);
  double total = 0; for (auto t : ts) total += t->weight;
  FILE *fo = fopen((out + ".json").c_str(), "w"); fprintf(fo, "[");
  bool first = true;
  for (auto t : ts) {
    Stats st; std::unordered_set<uint64_t> seen;
    double start = now(), budget = secs * t->weight / total;
    for (uint64_t i = 0; now() - start < budget && !*gstop; i++) {
      gscale = (now() - start) / budget;
      uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ hstr(t->prop) ^ (hstr(t->name) << 1) ^ ((uint64_t)w << 40) ^ i; splitmix(s);
      Result r = run_case(t, nullptr, 0, false, s, 1.0);
      st.evals++;
      if (r.status == DISCARD) { st.discards++; continue; }
      for (uint32_t k = 0; k < sh->ncounter; k++) st.counters[sh->cname[k]] += sh->cval[k];
      if (sh->nontrivial && r.status == OK) {
        if (seen.insert(sh->hash).second && st.samples.size() < 1 && w < 2 && sh->ntrace > 0) {
          std::string tr(sh->trace, std::min<size_t>((size_t)sh->ntrace, 1200)); st.samples.push_back(tr); }
      }
      if (bad(r)) {
        keep(r);
        if (verbose) fprintf(stderr, "[%s] %s: %s\n", t->name, r.sig.c_str(), r.msg.c_str());
        // confirm in fresh processes, with more time
        int again = 0, tries = (r.status == HANG) ? 2 : 3;
        Result c0 = r;
        for (int k = 0; k < tries; k++) {
          Result q = run_case(t, c0.choices.data(), c0.choices.size(), true, 0, r.status == HANG ? 2.0 : 1.0);
          if (bad(q) && q.sig == c0.sig) { again++; keep(q); c0.msg = q.msg; c0.trace = q.trace; }
        }
        bool real = (t->flags & NONDET) ? (r.status == FAIL || again > 0) : (r.status == HANG ? again == tries : again > 0);
        if (!real) { st.unrepro++; st.counters["unreproduced:" + r.sig]++; continue; }
        if (__sync_bool_compare_and_swap(gstop, 0u, 1u)) {
          if (!(t->flags & NONDET)) c0 = shrink(t, c0, c0.status == HANG ? 60 : (thorough ? 120 : 45));
          FILE *ff = fopen((scratch + "/failure.json").c_str(), "w"); std::string js = json_result(t, c0); fputs(js.c_str(), ff); fclose(ff);
        }
        break;
      }
    }
    st.secs = now() - start;
    fprintf(fo, "%s{\"test\":\"%s\",\"evals\":%lu,\"discards\":%lu,\"unreproduced\":%lu,\"secs\":%.2f,\"counters\":{", first ? "" : ",", t->name, st.evals, st.discards, st.unrepro, st.secs);
    bool f2 = true; for (auto &kv : st.counters) { fprintf(fo, "%s\"%s\":%lu", f2 ? "" : ",", jesc(kv.first).c_str(), kv.second); f2 = false; }
    fprintf(fo, "},\"samples\":["); f2 = true;
    for (auto &s : st.samples) { fprintf(fo, "%s\"%s\"", f2 ? "" : ",", jesc(s).c_str()); f2 = false; }
    fprintf(fo, "]}"); first = false;
    FILE *fh = fopen((out + "." + t->name + ".hash").c_str(), "wb"); for (uint64_t h : seen) fwrite(&h, 8, 1, fh); fclose(fh);
  }
  fprintf(fo, "]"); fclose(fo);
}

static std::vector<Store> all_stores;
static std::vector<std::string> claims;
static void make_stores(int n) {
  const char *cd = "/dev/shm/verif-keys"; mkdir(cd, 0777);
  int made = 0;
  for (int tries = 0; made < n && tries < n * 50 + 200; tries++) {
    std::string p = scratch + "/s" + std::to_string(tries);
    if (mkdir(p.c_str(), 0777)) { perror("mkdir"); exit(2); }
    chmod(p.c_str(), 0777);
    key_t k = ftok(p.c_str(), 'L' + 64);
    if (k == -1 || shmget(k, 0, 0) != -1 || shmget((k & 0xffffff) | (('L' + 32) << 24), 0, 0) != -1) continue;
    char cl[100]; snprintf(cl, sizeof cl, "%s/%08x", cd, (unsigned)k);
    int fd = open(cl, O_CREAT | O_EXCL | O_RDWR, 0666);
    if (fd < 0) {                                   // stale claim of a dead run?
      std::string s = read_file(cl); pid_t pid = atoi(s.c_str());
      if (pid > 0 && kill(pid, 0) == -1 && errno == ESRCH) unlink(cl);
      continue;
    }
    dprintf(fd, "%d\n", getpid()); close(fd);
    claims.push_back(cl); all_stores.push_back({p, k}); made++;
  }
  if (made < n) { fprintf(stderr, "cannot make %d stores with distinct keys\n", n); exit(2); }
}
static void drop_stores() {
  for (auto &s : all_stores) clean_store(s);
  for (auto &c : claims) unlink(c.c_str());
}

} // namespace pbt

using namespace pbt;
extern "C" __attribute__((weak)) int pbt_alternate_main(int argc, char **argv);
int main(int argc, char **argv) {
  if (pbt_alternate_main && getenv("PBT_ALTERNATE")) return pbt_alternate_main(argc, argv);
  std::string prop, replay, probe, only; double secs = 10; uint64_t seed = 1; int per = 3;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--secs") secs = atof(argv[++i]); else if (a == "--seed") seed = strtoull(argv[++i], 0, 0);
    else if (a == "--workers") nworkers = atoi(argv[++i]); else if (a == "--scratch") scratch = nx(); else if (a == "--thorough") thorough = true;
    else if (a == "--replay") replay = nx(); else if (a == "--verbose") verbose = true; else if (a == "--probe") probe = nx(); else if (a == "--only") only = nx();
    else if (a == "--list") { for (Test *t = tests; t; t = t->next) printf("%s %s %g %u\n", t->prop, t->name, t->weight, t->flags); return 0; }
  }
  bool ownscratch = scratch.empty();
  if (ownscratch) { char b[] = "/dev/shm/verif-XXXXXX"; scratch = mkdtemp(b); }
  chmod(scratch.c_str(), 0777);
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
  signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  gstop = (volatile uint32_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int rc = 0;
  if (!replay.empty() || !probe.empty()) {
    make_stores(per); mystores = all_stores;
    std::string name = probe; std::vector<uint64_t> v;
    if (!replay.empty()) {
      std::string s = read_file(replay.c_str());
      size_t p = s.find("\"test\""); p = s.find('"', s.find(':', p)); name = s.substr(p + 1, s.find('"', p + 1) - p - 1);
      p = s.find("\"choices\""); p = s.find('[', p) + 1; const char *q = s.c_str() + p;
      while (*q && *q != ']') { if (*q >= '0' && *q <= '9') { char *e; v.push_back(strtoull(q, &e, 10)); q = e; } else q++; }
    }
    Test *t = tests; while (t && (name != t->name || prop != t->prop)) t = t->next;
    if (!t) { fprintf(stderr, "no test %s %s\n", prop.c_str(), name.c_str()); drop_stores(); return 2; }
    Result r = run_case(t, v.data(), v.size(), true, 0, 2.0); keep(r);
    printf("%s\n", json_result(t, r).c_str());
    if (verbose) fprintf(stderr, "%s\n-> status %u %s: %s\n", r.trace.c_str(), r.status, r.sig.c_str(), r.msg.c_str());
    rc = bad(r) ? 1 : 0;
  } else {
    std::vector<Test *> ts; for (Test *t = tests; t; t = t->next) if (prop == t->prop && !(t->flags & PROBE) && (only.empty() || only == t->name)) ts.push_back(t);
    if (ts.empty()) { fprintf(stderr, "no tests for %s\n", prop.c_str()); return 2; }
    make_stores(per * nworkers);
    std::vector<pid_t> pids;
    for (int w = 0; w < nworkers; w++) {
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_CHILD_SUBREAPER, 1);
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        mystores.assign(all_stores.begin() + w * per, all_stores.begin() + (w + 1) * per);
        worker_main(w, ts, secs, seed); _exit(0);
      }
      pids.push_back(p);
    }
    int bad_workers = 0;
    for (auto p : pids) { int st; if (waitpid(p, &st, 0) != p || !WIFEXITED(st) || WEXITSTATUS(st)) bad_workers++; }
    printf("{\"prop\":\"%s\",\"lost_workers\":%d,\"distinct\":{", prop.c_str(), bad_workers);
    bool f = true;
    for (auto t : ts) { std::unordered_set<uint64_t> u;
      for (int w = 0; w < nworkers; w++) { std::string b = read_file((scratch + "/w" + std::to_string(w) + "." + t->name + ".hash").c_str());
        for (size_t i = 0; i + 8 <= b.size(); i += 8) { uint64_t h; memcpy(&h, b.data() + i, 8); u.insert(h); } }
      printf("%s\"%s\":%zu", f ? "" : ",", t->name, u.size()); f = false; }
    printf("},\"workers\":["); f = true;
    for (int w = 0; w < nworkers; w++) { std::string b = read_file((scratch + "/w" + std::to_string(w) + ".json").c_str()); if (b.empty() || b.back() != ']') continue; printf("%s%s", f ? "" : ",", b.c_str()); f = false; }
    std::string fl = read_file((scratch + "/failure.json").c_str());
    printf("],\"failure\":%s}\n", fl.empty() ? "null" : fl.c_str());
    rc = fl.empty() ? 0 : 1;
  }
  drop_stores();
  if (ownscratch) { std::string cmd = "rm -rf -- " + scratch; if (scratch.rfind("/dev/shm/verif-", 0) == 0) { int x = system(cmd.c_str()); (void)x; } }
  fflush(stdout);
  return rc;
}
