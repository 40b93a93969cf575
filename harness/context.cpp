// D06 naming contexts
#include "sas.h"
#include <string>
extern "C" {
#include "sphcontextpriv.h"
}
using namespace pbt;
static u64 r16(u64 n) { return (n + 15) & ~15ull; }

struct CtxModel { std::map<std::string, u64> n; std::map<u64, std::string> a; u64 bytes = 0;
  void add(const std::string &k, u64 v) { n[k] = v; a[v] = k; bytes += r16(k.size() + 1); }
  void del(const std::string &k) { u64 v = n[k]; n.erase(k); a.erase(v); bytes -= r16(k.size() + 1); } };

static std::string gen_name(Case &c, const std::vector<std::string> &pool) {
  if (!pool.empty() && c.chance(2, 3)) return pool[c.below(pool.size())];
  std::string s; switch (c.below(6)) {
    case 0: { char b[24]; snprintf(b, sizeof b, "name%lu", c.below(40)); return b; }
    case 1: { u64 n = c.below(5); for (u64 i = 0; i < n; i++) s += "ab/"[c.below(3)]; return s; }     // "" too
    case 2: { u64 n = 14 + c.below(4); return std::string(n, 'x') + (char)('a' + c.below(3)); }       // around a granule
    case 3: { u64 n = c.below(60); return std::string(n, 'p') + (char)('a' + c.below(20)); }
    case 4: { u64 n = 1 + c.below(6); for (u64 i = 0; i < n; i++) s += (char)(1 + c.below(255)); return s; }
    default: { u64 n = c.rarely(1, 4) ? 500 + c.below(40) : 100 + c.below(200); return std::string(n, 'L') + (char)('a' + c.below(4)); }
  }
}
static void check_ctx(Case &c, SPHContext_t t, CtxModel &m, const std::vector<std::string> &pool, u64 maxaddr, bool all) {
  auto one = [&](const std::string &k) { void *v = SPHContextFindByName(t, k.c_str()); auto it = m.n.find(k); void *e = it == m.n.end() ? nullptr : (void *)it->second;
    CHECK(v == e, "by-name", "name \"%.40s\" (%zu bytes) gives %p, the history gives %p", k.c_str(), k.size(), v, e); };
  auto onea = [&](u64 a) { char *s = (char *)SPHContextFindByAddr(t, (void *)a); auto it = m.a.find(a); if (it == m.a.end()) CHECK(!s, "by-addr", "address %lx gives \"%.40s\", but has no name", a, s);
    else CHECK(s && it->second == s, "by-addr", "address %lx gives \"%.40s\", its name is \"%.40s\"", a, s ? s : "(null)", it->second.c_str()); };
  if (all) { for (auto &k : pool) one(k); for (auto &x : m.n) one(x.first); for (u64 i = 0; i < maxaddr; i++) onea(0x5000 + i * 24); for (auto &x : m.a) onea(x.first);
    SASStringBTreeEnum_t e = SPHContextGetNameEnum(t); CHECK(e, "enum", "no enumeration"); for (auto &x : m.n) { CHECK(SASStringBTreeEnumHasMore(e), "enum", "name enumeration ends before \"%.40s\"", x.first.c_str()); void *v = SASStringBTreeEnumNext(e); char *k = SASStringBTreeEnumCurrent(e);
      CHECK(v == (void *)x.second && k && x.first == k, "enum", "enumeration gives \"%.40s\" -> %p, expected \"%.40s\" -> %lx", k ? k : "(null)", v, x.first.c_str(), x.second); }
    CHECK(!SASStringBTreeEnumHasMore(e), "enum", "more than %zu names", m.n.size()); SASStringBTreeEnumDestroy(e); }
  else { if (!pool.empty()) one(pool[c.below(pool.size())]); onea(0x5000 + 24 * c.below(maxaddr)); }
}
static void ctx_ops(Case &c, SPHContext_t t, CtxModel &m, std::vector<std::string> &pool, u64 maxaddr, u64 base, u64 size, int n) {
  for (int i = 0; i < n; i++) {
    std::string k = gen_name(c, pool); if (pool.size() < 60) pool.push_back(k); u64 v = 0x5000 + 24 * c.below(maxaddr); std::string self;
    u64 room = size - 128 - m.bytes;   // an upper bound of the largest free piece
    u64 w = c.below(10); u64 f0 = SPHContextFreeSpace(t);
    if (w < 4) { int r = SPHContextAddName(t, k.c_str(), (void *)v); bool dup = m.n.count(k) || m.a.count(v); c.log("add %.30s(%zu) %lx -> %d", k.c_str(), k.size(), v, r);
      if (dup) CHECK(!r, "add", "adding \"%.40s\" -> %lx was accepted although %s is bound", k.c_str(), v, m.n.count(k) ? "the name" : "the address");
      else if (!r) CHECK(k.size() >= 512 || room < size / 2, "add", "adding \"%.40s\" (%zu bytes) -> %lx was refused with %lu bytes free", k.c_str(), k.size(), v, f0);
      if (r) m.add(k, v); else CHECK(SPHContextFreeSpace(t) == f0, "refused", "the refused add changed the free space from %lx to %lx", f0, SPHContextFreeSpace(t)); }
    else if (w < 6) { std::string o = gen_name(c, pool); u64 val = v; if (m.n.count(o) && c.chance(4, 5)) val = m.n[o]; const char *op = o.c_str();
      if (m.n.count(o) && c.rarely(1, 4)) { op = (const char *)SPHContextFindByAddr(t, (void *)m.n[o]); if (!op) op = o.c_str(); } // the context's own copy of the name
      bool was = m.n.count(o) && m.n[o] == val; bool freeNew = !m.n.count(k) || k == o;
      int r = SPHContextRename(t, op, k.c_str(), (void *)val); c.log("rename %.30s(%zu) to %.30s(%zu) for %lx -> %d", o.c_str(), o.size(), k.c_str(), k.size(), val, r);
      if (!was || !freeNew) CHECK(!r, "rename", "renaming \"%.40s\" (%s) to \"%.40s\" (%s) was accepted", o.c_str(), was ? "bound to it" : "not bound to that address", k.c_str(), freeNew ? "free" : "taken");
      else if (!r) CHECK(k.size() >= 512 || room < size / 2, "rename", "renaming \"%.40s\" to the free name \"%.40s\" was refused", o.c_str(), k.c_str());
      if (r) { m.del(o); m.add(k, val); } else CHECK(SPHContextFreeSpace(t) == f0, "refused", "the refused rename changed the free space from %lx to %lx", f0, SPHContextFreeSpace(t)); 
      for (auto &q : {o, k}) { void *g = SPHContextFindByName(t, q.c_str()); void *e = m.n.count(q) ? (void *)m.n[q] : nullptr; CHECK(g == e, "by-name", "after the rename \"%.40s\" gives %p, expected %p", q.c_str(), g, e); } }
    else if (w < 8) { const char *kp = k.c_str(); if (m.n.count(k) && c.rarely(1, 3)) { kp = (const char *)SPHContextFindByAddr(t, (void *)m.n[k]); if (!kp) kp = k.c_str(); }
      int r = SPHContextRemoveByName(t, kp); c.log("remove name %.30s(%zu) -> %d", k.c_str(), k.size(), r); CHECK((r == 0) == (m.n.count(k) > 0), "remove", "removing name \"%.40s\" = %d, but it was %s", k.c_str(), r, m.n.count(k) ? "bound" : "not bound"); if (r == 0) m.del(k); }
    else { if (!m.a.empty() && c.chance(1, 2)) v = std::next(m.a.begin(), c.below(m.a.size()))->first; int r = SPHContextRemoveByAddr(t, (void *)v); c.log("remove address %lx -> %d", v, r);
      CHECK((r == 0) == (m.a.count(v) > 0), "remove", "removing address %lx = %d, but it was %s", v, r, m.a.count(v) ? "bound" : "not bound"); if (r == 0) m.del(std::string(m.a[v])); }
    u64 f = SPHContextFreeSpace(t); CHECK(f == base - m.bytes, "free-space", "%lx bytes free, expected %lx with %zu names", f, base - m.bytes, m.n.size());
    check_ctx(c, t, m, pool, maxaddr, (i & 7) == 7);
  }
}
static void names(Case &c); static void projects_(Case &c);
PBT_TEST(D06, context, 2) { names(c); }
PBT_TEST(D06, projects, 1) { projects_(c); }
// the root context is full: no project is set up, and nothing is left of the attempts
PBT_TEST(D06, root_full, 0.4) {
  sas_join(c); SPHContext_t p0 = c.chance(1, 2) ? SPHSetupProjectContext("first") : SPHSetupAltProjectContext("first"); CHECK(p0, "setup", "first project"); SPHContext_t root = (SPHContext_t)getSASFinder(); CHECK(root && SPHContextFindByName(root, "first") == p0, "root", "the root context does not hold the project");
  CHECK(SPHContextAddName(p0, "inner", (void *)0x5550), "add", "name in the project"); std::vector<std::string> names, projs; u64 k = 0; RegionLists r; int full = 0, tries = (int)c.range(2, 12);
  auto nm = [&](u64 len) { char b[48]; snprintf(b, sizeof b, "%c%06lu........................", 'a' + (int)c.below(26), k++); return std::string(b).substr(0, len); };
  auto stuff = [&](u64 len) { for (u64 i = 0; i < 12000; i++) { std::string n = nm(len); if (!SPHContextAddName(root, n.c_str(), (void *)(0x1000000 + k * 16))) return; names.push_back(n); } c.fail("full", "the root context takes any number of names"); };
  u64 len = c.range(15, 31); stuff(len); if (c.chance(1, 2)) stuff(7); c.log("%zu names of %lu in the root", names.size(), len);
  for (int i = 0; i < tries; i++) {
    if (c.rarely(1, 4) && !names.empty()) { u64 m = c.range(1, 3); while (m-- && !names.empty()) { u64 j = c.below(names.size()); CHECK(SPHContextRemoveByName(root, names[j].c_str()) == 0, "remove", "remove"); names[j] = names.back(); names.pop_back(); } c.log("room made"); }
    r.load(); u64 us = RegionLists::sum(r.used), f = SPHContextFreeSpace(root); SPHContext_t cur = getCurrentProjectContext(); std::string n = nm(c.range(7, 31)); bool alt = c.chance(1, 2); SPHContext_t t = alt ? SPHSetupAltProjectContext(n.c_str()) : SPHSetupProjectContext(n.c_str()); c.log("%s project of %zu characters, %lx free -> %p", alt ? "alt" : "current", n.size(), f, t); r.load();
    if (!t) { full++; CHECK(f < 1024, "setup", "a project is refused with %lx free in the root", f); CHECK(RegionLists::sum(r.used) == us, "conservation", "%lx bytes were in use before a refused project, %lx after", us, RegionLists::sum(r.used)); CHECK(SPHContextFreeSpace(root) == f, "free-space", "a refused project changed the root's free space from %lx to %lx", f, SPHContextFreeSpace(root)); CHECK(!getProjectContextByName(n.c_str()), "project", "a refused project is found"); CHECK(getCurrentProjectContext() == (alt ? cur : nullptr) || getCurrentProjectContext() == cur, "current", "the current project after a refused one is %p", getCurrentProjectContext()); }
    else { CHECK(getProjectContextByName(n.c_str()) == t && SPHContextFindByName(root, n.c_str()) == t, "project", "a project just set up is not found"); CHECK(getCurrentProjectContext() == (alt ? cur : t), "current", "current project"); CHECK(SPHContextAddName(t, "x", (void *)0x777770) && SPHContextFindByName(t, "x") == (void *)0x777770, "add", "name in the new project"); projs.push_back(n); if (c.chance(1, 2)) { CHECK(SPHDestroyProjectContext(n.c_str()) == 0, "destroy-project", "destroy"); projs.pop_back(); r.load(); CHECK(RegionLists::sum(r.used) == us, "conservation", "%lx bytes in use before a project, %lx after its destruction", us, RegionLists::sum(r.used)); } }
    CHECK(getProjectContextByName("first") == p0 && SPHContextFindByName(p0, "inner") == (void *)0x5550, "project", "the first project is lost"); }
  for (auto &n : projs) CHECK(getProjectContextByName(n.c_str()), "project", "a project is lost"); for (auto &n : names) CHECK(SPHContextFindByName(root, n.c_str()), "name", "a name of the root is lost"); if (full) c.nontrivial(); c.count("refused", full);
}
PBT_TEST(A04, context_calls, 1) { if (c.below(2)) projects_(c); else names(c); } // every call gives back its locks
static void names(Case &c) {
  sas_join(c); if (c.chance(1, 2)) { sasClearOnDealloc = 0; void *b = SASBlockAlloc(1 << 24); memset(b, 0xA5, 1 << 24 >> 4); SASBlockDealloc(b, 1 << 24); }
  u64 size = 1ull << (12 + c.below(5)); SPHContext_t t;
  if (c.chance(1, 2)) t = SPHContextCreate(size); else { void *b = SASBlockAlloc(size); CHECK(b, "create", "block"); fill(b, size, 4); t = SPHContextInit(b, SAS_RUNTIME_CONTEXT, size); CHECK(t == b, "create", "SPHContextInit = %p", t); }
  CHECK(t, "create", "SPHContextCreate(%lx) = NULL", size); c.log("context of %lx", size);
  SPHContext_t other = SPHContextCreate(4096); CHECK(other, "create", "second context"); CtxModel mo; std::vector<std::string> po; u64 ob = SPHContextFreeSpace(other);
  CtxModel m; std::vector<std::string> pool; u64 maxaddr = c.chance(1, 2) ? 6 : 60; u64 base = SPHContextFreeSpace(t);
  CHECK(base <= size && base + 256 >= size, "free-space", "a fresh context of %lx has %lx free", size, base);
  int rounds = (int)c.range(1, 6); for (int r = 0; r < rounds; r++) { ctx_ops(c, t, m, pool, maxaddr, base, size, (int)c.range(1, 30)); if (c.rarely(1, 3)) ctx_ops(c, other, mo, po, 8, ob, 4096, 5); }
  check_ctx(c, t, m, pool, maxaddr, true); check_ctx(c, other, mo, po, 8, true); if (m.n.size() > 3) c.nontrivial();
  if (c.chance(1, 2)) { while (!m.n.empty()) { auto it = std::next(m.n.begin(), c.below(m.n.size())); std::string k = it->first; int r = c.chance(1, 2) ? SPHContextRemoveByName(t, k.c_str()) : SPHContextRemoveByAddr(t, (void *)it->second); CHECK(r == 0, "remove", "removing \"%.40s\" = %d", k.c_str(), r); m.del(k); }
    CHECK(SPHContextFreeSpace(t) == base, "free-space", "the emptied context has %lx free, fresh it had %lx", SPHContextFreeSpace(t), base); check_ctx(c, t, m, pool, maxaddr, true); }
  static RegionLists rl; rl.load(); u64 us = RegionLists::sum(rl.used); CHECK(SPHContextDestroy(t) == 0, "destroy", "destroy"); rl.load(); u64 u2 = RegionLists::sum(rl.used);
  CHECK(us - u2 == size + 2 * (4096 * 4096), "destroy", "destroying the context of %lx gave back %lx bytes", size, us - u2); check_ctx(c, other, mo, po, 8, true);
}
// projects, set up and found by several processes one after the other
struct Proj { std::string name; u64 addr; bool gone; CtxModel m; std::vector<std::string> pool; u64 base; };
static void projects_(Case &c) {
  // the model lives in memory shared by the processes: it is rebuilt from a plain byte string
  struct Blob { u64 n; char d[1 << 18]; }; static Blob *blob = (Blob *)mmap(nullptr, sizeof(Blob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); blob->n = 0;
  int procs = (int)c.range(1, 4); bool named = false;
  for (int p = 0; p < procs; p++) c.child([&] {
    std::map<std::string, Proj> ps; { // load
      const char *q = blob->d; u64 n = blob->n; auto num = [&] { u64 v; memcpy(&v, q, 8); q += 8; return v; }; auto str = [&] { u64 l = num(); std::string s(q, l); q += l; return s; };
      for (u64 i = 0; i < n; i++) { Proj P; P.name = str(); P.addr = num(); P.base = num(); u64 k = num(); for (u64 j = 0; j < k; j++) { std::string s = str(); u64 v = num(); P.m.add(s, v); P.pool.push_back(s); } ps[P.name] = P; } }
    sas_join(c); c.log("process %d", p); u64 cur = 0;
    CHECK(getCurrentProjectContext() == nullptr, "current", "a new process has a current project");
    for (auto &x : ps) { SPHContext_t t = getProjectContextByName(x.first.c_str()); CHECK((u64)t == x.second.addr, "project", "project %s is found at %p, it was at %lx", x.first.c_str(), t, x.second.addr); check_ctx(c, t, x.second.m, x.second.pool, 8, true); }
    int n = (int)c.range(1, 8);
    for (int i = 0; i < n; i++) { static const char *nm[] = {"alpha", "beta", "", "a/longer/project/name/of/some/length", "alph", "gamma"}; std::string k = nm[c.below(6)]; u64 w = c.below(8); auto it = ps.find(k);
      if (w < 3) { bool alt = c.chance(1, 2); SPHContext_t t = alt ? SPHSetupAltProjectContext(k.c_str()) : SPHSetupProjectContext(k.c_str()); c.log("setup%s %s -> %p", alt ? " alt" : "", k.c_str(), t); CHECK(t, "setup", "setting up project %s failed", k.c_str());
        if (it != ps.end()) CHECK((u64)t == it->second.addr, "setup", "project %s is at %p, it was at %lx", k.c_str(), t, it->second.addr);
        else { for (auto &y : ps) CHECK(y.second.addr != (u64)t, "setup", "projects %s and %s share a context", k.c_str(), y.first.c_str()); Proj P; P.name = k; P.addr = (u64)t; P.base = SPHContextFreeSpace(t); ps[k] = P; check_ctx(c, t, ps[k].m, P.pool, 8, true); }
        if (!alt) cur = (u64)t; }
      else if (w == 3) { SPHContext_t t = SPHRemoveProjectContext(k.c_str()); c.log("remove %s -> %p", k.c_str(), t); CHECK((u64)t == (it == ps.end() ? 0 : it->second.addr), "remove-project", "removing project %s = %p", k.c_str(), t);
        if (it != ps.end()) { check_ctx(c, t, it->second.m, it->second.pool, 8, true); if (cur == (u64)t) cur = 0; CHECK(SPHContextDestroy(t) == 0, "destroy", "destroy"); ps.erase(it); } }
      else if (w == 4) { int r = SPHDestroyProjectContext(k.c_str()); c.log("destroy %s -> %d", k.c_str(), r); CHECK((r == 0) == (it != ps.end()), "destroy-project", "destroying project %s = %d", k.c_str(), r); if (it != ps.end()) { if (cur == it->second.addr) cur = 0; ps.erase(it); } }
      else if (it != ps.end()) { ctx_ops(c, (void *)it->second.addr, it->second.m, it->second.pool, 8, it->second.base, 1 << 20, 4); }
      CHECK((u64)getCurrentProjectContext() == cur, "current", "the current project is %p, expected %lx", getCurrentProjectContext(), cur);
      for (auto &x : ps) CHECK((u64)getProjectContextByName(x.first.c_str()) == x.second.addr, "project", "project %s is not found any more", x.first.c_str());
      CHECK(getProjectContextByName("nobody") == nullptr, "project", "an unknown project was found");
    }
    for (auto &x : ps) if (x.second.m.n.size()) { named = true; c.nontrivial(); }
    { char *q = blob->d; auto num = [&](u64 v) { memcpy(q, &v, 8); q += 8; }; auto str = [&](const std::string &s) { num(s.size()); memcpy(q, s.data(), s.size()); q += s.size(); };
      blob->n = 0; for (auto &x : ps) { str(x.first); num(x.second.addr); num(x.second.base); num(x.second.m.n.size()); for (auto &y : x.second.m.n) { str(y.first); num(y.second); } blob->n++; } }
    if (c.chance(1, 2)) SASCleanUp();
  });
  (void)named;
}
