// Helpers of the harnesses that look at processes, stores and files from outside.
#ifndef VERIF_PROCS_H
#define VERIF_PROCS_H
#include "world.h"
#include <semaphore.h>
#include <setjmp.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <dirent.h>
#include <string>
using namespace pbt;
template <class T> static T *shared(size_t n = 1) { void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) abort(); return (T *)p; }
struct Snap { u64 n[5], h[5], bytes[5]; };
static void snap(Snap &s) { RegionLists r; r.load(); std::vector<Ival> *v[5] = {&r.free_, &r.uncommitted, &r.used, &r.regionFree, &r.segs}; for (int i = 0; i < 5; i++) { s.n[i] = v[i]->size(); s.bytes[i] = RegionLists::sum(*v[i]); u64 h = 1; for (auto &x : *v[i]) { h = (h ^ x.a) * 0x9E3779B97F4A7C15ull; h = (h ^ x.n) * 0xD1B54A32D192ED03ull; h ^= h >> 31; } s.h[i] = h; } }
static const char *lname[5] = {"free", "uncommitted", "in-use", "unallocated", "segment"};
static void same(Case &c, const Snap &a, const Snap &b, const char *sig, const char *when) { for (int i = 0; i < 5; i++) CHECK(a.n[i] == b.n[i] && a.h[i] == b.h[i], sig, "%s: the %s list should be %lu ranges, %lx bytes and is %lu ranges, %lx bytes", when, lname[i], a.n[i], a.bytes[i], b.n[i], b.bytes[i]); }
static std::vector<std::string> files(const std::string &d) { std::vector<std::string> v; DIR *D = opendir(d.c_str()); while (dirent *e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(D); std::sort(v.begin(), v.end()); return v; }
static int fds() { int n = 0; DIR *D = opendir("/proc/self/fd"); while (readdir(D)) n++; closedir(D); return n; }
// what of the region is mapped in this process
static std::string mapped() { FILE *f = fopen("/proc/self/maps", "r"); char b[600]; std::string r; while (fgets(b, sizeof b, f)) { u64 a, e; if (sscanf(b, "%lx-%lx", &a, &e) == 2 && (strstr(b, ".DAT") || strstr(b, "SYSV") || (a < 0x610000000000ull && e > 0x600000000000ull) || (a < 0x500000000000ull && e > 0x400000000000ull))) { r += b; } } fclose(f); return r; }
static bool lock_table(const std::string &store) { return shmget(ftok(store.c_str(), 'L' + 64), 0, 0) != -1; }
#endif
