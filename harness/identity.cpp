// F02: process and thread identifiers, writers of entries, the command line.
#include "procs.h"
#include <sys/syscall.h>
#include <sys/resource.h>
#include <functional>
#include <atomic>
static int sys_pid() { return (int)syscall(SYS_getpid); }
static int sys_tid() { return (int)syscall(SYS_gettid); }
// what a constructor that runs before the library's own sees
static int early_pid, early_tid, early_rpid; __attribute__((constructor(101))) static void early() { early_rpid = sys_pid(); early_pid = sphFastGetPID(); early_tid = sphFastGetTID(); }
struct Board { std::atomic<int> set; char msg[400]; std::atomic<u64> queries, procs, threads, entries; struct { int pid, tid; } who[4096]; };
static Board *B; static SPHLFLogger_t LOG; static SPHLogPortal_t PORT; static std::vector<SPHSinglePCQueue_t> SQ;
#define SAY(...) do { if (!B->set.exchange(1)) snprintf(B->msg, sizeof B->msg, __VA_ARGS__); } while (0)
enum { QUERY, LOGIT, PORTAL, SINGLE, CMDLINE, FORK, THREAD, JOIN, SETUP, REST };
struct Node; struct Step { int kind; u64 a, b; std::unique_ptr<Node> sub; };
struct Node { std::vector<Step> st; bool thread; int id; };
static std::unique_ptr<Node> plan(Case &c, int depth, int &left, bool thread) {
  std::unique_ptr<Node> n(new Node); n->thread = thread; n->id = left; int k = 1 + c.below(7); bool setup = false;
  for (int i = 0; i < k; i++) { Step s; static const int w[] = {6, 2, 2, 2, 1, 3, 3, 1, 1, 1}; s.kind = c.weighted(w, 10); s.a = c.below(64); s.b = c.below(8);
    if (s.kind == FORK || s.kind == THREAD) { if (depth <= 0 || left <= 0) s.kind = QUERY; else { left--; s.sub = plan(c, depth - 1, left, s.kind == THREAD); } }
    if (s.kind == SETUP) { if (!thread || setup) s.kind = QUERY; else setup = true; }
    static const char *const nm[] = {"ask", "log", "log through the portal", "queue", "command line", "fork", "new thread", "wait for the children", "set up", "rest"}; c.log("%*s%s %lu", (5 - depth) * 2, "", nm[s.kind], s.b);
    n->st.push_back(std::move(s)); }
  return n;
}
static void query(u64 how, const char *where) {
  int p = sys_pid(), t = sys_tid(); B->queries++;
  switch (how & 3) {
    case 0: { int r = sphdeGetTID(); if (r != t) SAY("%s: sphdeGetTID says %d in thread %d of process %d", where, r, t, p); break; }
    case 1: { int r = sphFastGetTID(); if (r != t) SAY("%s: sphFastGetTID says %d in thread %d of process %d", where, r, t, p); break; }
    case 2: { int r = sphdeGetPID(); if (r != p) SAY("%s: sphdeGetPID says %d in process %d", where, r, p); break; }
    default: { int r = sphFastGetPID(); if (r != p) SAY("%s: sphFastGetPID says %d in process %d", where, r, p); } }
}
static std::string truth; // the command line, as the system has it
static void cmdline(const char *where) {
  const char *s = sphdeGetCmdLine(); if (!s) { SAY("%s: no command line", where); return; }
  size_t n = strnlen(s, 256); if (n > 255) { SAY("%s: the command line does not end", where); return; }
  std::string first = truth.substr(0, truth.find('\0')).substr(0, 255), all; for (char ch : truth) all += ch ? ch : ' '; all = all.substr(0, 255);
  std::string got(s, n); if (got != first && got != all.substr(0, got.size())) SAY("%s: the command line is \"%.60s\" (%zu), expected \"%.60s\"", where, s, n, first.c_str());
  else if (got.size() < first.size()) SAY("%s: the command line \"%.60s\" is cut short", where, s);
}
static void run(Node *n);
struct Run { Node *n; pthread_t t; };
static void run(Node *n) {
  const char *w = n->thread ? "thread" : "process"; std::vector<int> kids; std::vector<pthread_t> ths; bool up = false; int before = n->thread ? 0 : fds();
  auto join = [&] { for (auto t : ths) pthread_join(t, nullptr); ths.clear(); for (int p : kids) { int st; if (waitpid(p, &st, 0) != p || !WIFEXITED(st) || WEXITSTATUS(st)) SAY("a child process ended with status %x", st); } kids.clear(); };
  auto mark = [&]() -> int { u64 i = B->entries++; if (i >= 4096) return -1; B->who[i].pid = sys_pid(); B->who[i].tid = sys_tid(); return (int)i; };
  for (auto &s : n->st) switch (s.kind) {
    case QUERY: for (u64 i = 0; i <= s.b % 3; i++) query(s.a >> (2 * i), w); break;
    case LOGIT: { int i = mark(); if (i < 0) break; SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); SPHLFLoggerHandle_t *r = s.b & 1 ? SPHLFLoggerAllocTimeStamped(LOG, 1, 2, 16, &h) : SPHLFLoggerAllocStrideTimeStamped(LOG, 1, 2, &h); if (!r) { SAY("no room in the logger"); break; } SPHLFlogEntryAddInt(&h, i); SPHLFLoggerEntryComplete(&h); break; }
    case PORTAL: { int i = mark(); if (i < 0) break; SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); SPHLFLoggerHandle_t *r = s.b & 1 ? SPHLogPortalAllocTimeStamped(PORT, 1, 2, 16, &h) : SPHLogPortalAllocStrideTimeStamped(PORT, 1, 2, &h); if (!r) { SAY("no room in the portal"); break; } SPHLFlogEntryAddInt(&h, i); SPHLFLoggerEntryComplete(&h); break; }
    case SINGLE: { int i = mark(); if (i < 0 || (size_t)n->id >= SQ.size()) break; SPHLFEntryHandle_t h; memset(&h, 0, sizeof h); if (!SPHSinglePCQueueAllocStrideTimeStamped(SQ[n->id], 1, 2, &h)) { SAY("no room in the queue"); break; } SPHLFEntryAddInt(&h, i); SPHSinglePCQueueEntryComplete(&h); break; }
    case CMDLINE: cmdline(w); break;
    case FORK: { B->procs++; pid_t p = fork(); if (p == 0) { run(s.sub.get()); _exit(0); } if (p < 0) break; kids.push_back(p); if (s.b & 1) join(); if (s.b & 2) query(s.a, w); break; }
    case THREAD: { B->threads++; pthread_t t; if (pthread_create(&t, nullptr, [](void *p) -> void * { run((Node *)p); return nullptr; }, s.sub.get())) break; ths.push_back(t); if (s.b & 1) join(); break; }
    case JOIN: join(); break;
    case SETUP: SASThreadSetUp(); up = true; break;
    case REST: usleep(s.a * 3); break; }
  query(0, w); query(2, w); join(); query(1, w); query(3, w); if (up) SASThreadCleanUp();
  if (!n->thread) { int after = fds(); if (after > before) SAY("a process has %d more files open than before it asked", after - before); }
}
static void begin(Case &) { B = shared<Board>(); FILE *f = fopen("/proc/self/cmdline", "r"); truth.clear(); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) truth.append(b, n); fclose(f); }
static void verdict(Case &c) { CHECK(!B->set, "identity", "%s", B->msg); c.count("queries", B->queries); c.count("processes", B->procs); c.count("threads", B->threads); c.count("entries", B->entries); if (B->procs + B->threads > 1) c.nontrivial(); }
PBT_TEST_X(F02, tree, 3, pbt::NONDET, 20, 10) {
  begin(c); bool joined = c.chance(2, 3); int left = 14; auto root = plan(c, 5, left, false);
  if (joined) { sas_join(c); LOG = SPHLFLoggerCreate(65536); void *blk = SASBlockAlloc(65536); CHECK(LOG && blk, "create", "logger"); LOG = SPHLFLoggerInitWithStride(LOG, 65536, 32, 0); SPHLFLogger_t l2 = SPHLFLoggerInitWithStride(blk, 65536, 32, 0); PORT = SPHLogPortalCreate(4096); CHECK(PORT && SPHLogPortalAddLogger(PORT, l2) == l2, "create", "portal"); SQ.clear(); for (int i = 0; i < 16; i++) { SQ.push_back(SPHSinglePCQueueCreateWithStride(4096, 32)); CHECK(SQ.back(), "create", "queue"); } }
  else { std::function<void(Node *)> strip = [&](Node *n) { for (auto &s : n->st) { if (s.kind == LOGIT || s.kind == PORTAL || s.kind == SINGLE || s.kind == SETUP) s.kind = QUERY; if (s.sub) strip(s.sub.get()); } }; strip(root.get()); }
  run(root.get()); verdict(c);
  if (joined) { u64 n = 0; auto entry = [&](bool ok, int id, int pid, int tid, const char *w) { CHECK(ok && id >= 0 && (u64)id < B->entries, "entries", "an entry of the %s holds %d", w, id); CHECK(pid == (B->who[id].pid & 0xffff) && tid == (B->who[id].tid & 0xffff), "writer", "entry %d of the %s: writer %d/%d, expected %d/%d", id, w, pid, tid, B->who[id].pid & 0xffff, B->who[id].tid & 0xffff); n++; };
    for (int i = 0; i < 2; i++) { SPHLFLogIterator_t it; SPHLFLoggerHandle_t h; CHECK(SPHLFLoggerCreateIterator(i ? SPHLogPortalGetLoggerByIndex(PORT, 0) : LOG, &it), "iterator", "no iterator"); while (SPHLFLoggerIteratorNext(&it, &h)) { int pid = SPHLFLogEntryPID(&h), tid = SPHLFLogEntryTID(&h), id = SPHLFlogEntryGetNextInt(&h); entry(true, id, pid, tid, i ? "portal" : "logger"); } }
    for (auto q : SQ) { SPHLFEntryHandle_t h; while (SPHSinglePCQueueGetNextComplete(q, &h)) { int pid = SPHLFEntryPID(&h), tid = SPHLFEntryTID(&h), id = SPHLFEntryGetNextInt(&h); entry(true, id, pid, tid, "queue"); SPHSinglePCQueueFreeNextEntry(q); } }
    c.count("entries read", n); }
}
// programs with all kinds of command lines
struct Report { int pid, epid, rpid, tid, etid, open; bool ended; u64 len; char line[300]; char msg[400]; };
extern "C" int pbt_alternate_main(int argc, char **argv) {
  Board mine; memset((void *)&mine, 0, sizeof mine); B = &mine; Report r; memset(&r, 0, sizeof r); r.open = fds(); r.rpid = early_rpid; r.epid = early_pid; r.etid = early_tid; begin(*(Case *)nullptr); B = &mine;
  const char *mode = getenv("PBT_ALTERNATE"); for (const char *m = mode; *m; m++) switch (*m) { case 'c': cmdline("program"); break; case 'p': query(2, "program"); break; case 'P': query(3, "program"); break; case 't': query(0, "program"); break; case 'T': query(1, "program"); break;
    case 'f': { pid_t p = fork(); if (p == 0) { query(3, "child"); query(1, "child"); cmdline("child"); query(2, "child"); _exit(mine.set ? 1 : 0); } int st; waitpid(p, &st, 0); if (st) SAY("a forked child sees another identity or command line"); break; } }
  r.pid = sphFastGetPID(); r.tid = sphFastGetTID(); const char *s = sphdeGetCmdLine(); r.len = strnlen(s, 299); memcpy(r.line, s, r.len); if (mine.set) memcpy(r.msg, mine.msg, sizeof r.msg); r.open = fds() - r.open; return write(1, &r, sizeof r) == sizeof r ? 0 : 1;
}
PBT_TEST_X(F02, program, 1, pbt::NOSTORE, 20, 10) {
  begin(c); std::vector<std::string> av; int n = c.below(6); for (int i = 0; i < n; i++) { u64 len = c.chance(1, 2) ? c.below(20) : c.chance(1, 2) ? 250 + c.below(10) : c.below(6000); std::string s; for (u64 k = 0; k < len; k++) s += (char)(1 + c.below(255)); av.push_back(s); }
  static const char modes[] = "cpPtTf"; std::string mode; int m = c.below(8); for (int i = 0; i < m; i++) mode += modes[c.below(6)]; mode += 'c'; bool closed = c.rarely(1, 4); c.log("a program with %d arguments, the first of %zu bytes, asks in the order %s%s", n, av.empty() ? 0 : av[0].size(), mode.c_str(), closed ? ", without standard input" : "");
  int pf[2]; if (pipe(pf)) c.discard(); pid_t p = fork();
  if (p == 0) { dup2(pf[1], 1); for (int f = 3; f < 64; f++) close(f); if (closed) { close(0); close(2); } setenv("PBT_ALTERNATE", mode.c_str(), 1); std::vector<char *> a; for (auto &s : av) a.push_back((char *)s.c_str()); a.push_back(nullptr); execv("/proc/self/exe", a.data()); _exit(99); }
  close(pf[1]); Report r; ssize_t k = read(pf[0], &r, sizeof r); close(pf[0]); int st; waitpid(p, &st, 0); std::string first = av.empty() ? "" : av[0];
  CHECK(k == sizeof r && WIFEXITED(st) && WEXITSTATUS(st) == 0, "start", "a program with %d arguments (the first of %zu bytes) ended with status %x", n, first.size(), st);
  CHECK(r.msg[0] == 0, "program", "%s", r.msg); CHECK(r.pid == p && r.tid == p, "program", "a new program sees itself as %d/%d, expected %d", r.pid, r.tid, p); CHECK(r.epid == p && r.etid == p, "early", "a constructor of a new program sees itself as %d/%d, expected %d", r.epid, r.etid, p);
  CHECK(r.open <= 0, "leak", "%d more files are open after the queries", r.open); c.count("programs"); c.nontrivial();
}
