"""Builds the library from /repo/src's working tree and the harnesses, into /verif/build."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
BASE = ["-g", "-O2", "-D__SASSIM__", "-pthread", "-w", "-I" + SRC]
CXX = ["-std=gnu++17"]
VARIANTS = {
    # the library as /repo's own build compiles it; the harness sees which address locks a thread takes and gives back
    "plain": dict(lib=[], har=[], link=["-Wl,--wrap=SASLock", "-Wl,--wrap=SASUnlock"]),
    # the system calls behind segments and lock tables can be made to fail
    "fault": dict(lib=[], har=[], link=["-Wl,--wrap=" + f for f in ("open", "ftruncate", "mmap", "shmget", "shmat", "close", "SASLock", "SASUnlock")]),
    # with the two clock libraries
    "timers": dict(lib=[], har=[], link=[], src=["sphgtod.c", "sphgettime.c"]),
    # the system calls that advise about and synchronise memory are recorded and can be made to fail
    "sync": dict(lib=[], har=[], link=["-Wl,--wrap=" + f for f in ("msync", "madvise", "posix_madvise", "fsync", "fdatasync", "SASLock", "SASUnlock")]),
    # every memory access of the library is a scheduling point of a deterministic scheduler
    "sched": dict(lib=["-fsanitize=thread", "-DVERIF_SCHED", "-include", os.path.join(H, "sched_shim.h")],
                  har=["-fsanitize=thread", "-DVERIF_SCHED", "-include", os.path.join(H, "sched_shim.h")],
                  link=["-Wl,--wrap=" + f for f in ("sem_wait", "sem_post", "sched_yield", "usleep", "nanosleep")],
                  extra=["sched_rt.cpp"]),
}

def _h(files, extra=""):
    m = hashlib.sha256(extra.encode())
    for f in sorted(files):
        m.update(f.encode()); m.update(b"\0")
        with open(f, "rb") as fh: m.update(fh.read())
    return m.hexdigest()[:20]

def lib_sources():
    """What /repo's own Makefile.am puts into libsphde."""
    am = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^libsphde_la_SOURCES\s*=(.*)$", am, re.M)
    fs = [w for w in m.group(1).split() if w.endswith((".c", ".cpp"))]
    return sorted(os.path.join(SRC, f) for f in fs)

def sources(variant):
    """The extra libraries come first, as on a linker's command line."""
    return [os.path.join(SRC, f) for f in VARIANTS[variant].get("src", [])] + lib_sources()

def src_key(variant):
    hs = glob.glob(SRC + "/*.h") + sources(variant) + glob.glob(H + "/sched*")
    return _h(hs, repr(VARIANTS[variant]) + repr(BASE))

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def prune(keep):
    """Keep the few newest library builds."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("v-")]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[14:]:
            if d not in keep: shutil.rmtree(d, ignore_errors=True)
    except OSError: pass

def build(harness, variant="plain"):
    """Returns the path of the harness binary for /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "v-%s-%s" % (variant, src_key(variant)))
        os.makedirs(d, exist_ok=True); os.utime(d)
        jobs = []
        objs = []
        def comp(src, out, flags):
            if not os.path.exists(out):
                jobs.append((src, out, flags))
            return out
        for s in sources(variant):
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(comp(s, o, BASE + v["lib"]))
        hk = _h(glob.glob(H + "/*.h") + [os.path.join(H, harness), os.path.join(H, "pbt.cpp")]
                + [os.path.join(H, x) for x in v.get("extra", [])])
        pk = _h([os.path.join(H, "pbt.cpp"), os.path.join(H, "pbt.h")])
        pbto = comp(os.path.join(H, "pbt.cpp"), os.path.join(d, "pbt-%s.o" % pk), BASE)
        exe = os.path.join(d, "%s-%s" % (os.path.splitext(harness)[0], hk))
        hobjs = []
        if not os.path.exists(exe):
            for s in [harness] + v.get("extra", []):
                o = os.path.join(d, "%s-%s.o" % (s, hk))
                hobjs.append(comp(os.path.join(H, s), o, BASE + ([] if s in v.get("extra", []) else v["har"])))
        def one(j):
            s, o, fl = j
            tmp = o + ".tmp%d" % os.getpid()
            cc = ["g++"] + CXX if s.endswith(".cpp") else ["gcc"]
            run(cc + fl + ["-c", s, "-o", tmp]); os.rename(tmp, o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            run(["g++", "-pthread", "-rdynamic"] + hobjs + [pbto] + objs + v["link"] + ["-o", tmp, "-lrt", "-ldl"])
            os.rename(tmp, exe)
        prune([d])
        return exe

if __name__ == "__main__":
    t = time.time()
    for a in sys.argv[1:]:
        h, _, var = a.partition(":")
        try: print(build(h, var or "plain"), "%.1fs" % (time.time() - t))
        except RuntimeError as e:
            sys.stderr.write("\n".join(l for l in str(e).split("\n")[1:] if "error" in l or "undefined" in l)[:2500] + "\n"); sys.exit(1)
