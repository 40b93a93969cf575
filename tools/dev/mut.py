"""mut.py FILE N SECS [seed] [lo-hi]: mutates N random places of src/FILE, runs the checks mapped to it, prints the survivors."""
import sys, os, re, random, subprocess, json, shutil, hashlib, threading, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/tools'); import build as B
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo'); SRC = REPO + '/src'
MAP = {
 'bitv.c': ['C04', 'C05'], 'bitv_priv.h': ['C04', 'C05'], 'bitv.h': ['C04', 'C05'],
 'freenode.c': ['C01', 'C03', 'A01', 'A02'], 'ultree.cpp': ['A01', 'A02', 'C06', 'A05'], 'ultree.h': ['A01', 'A02', 'C06'],
 'sasalloc.cpp': ['A01', 'C06', 'C03', 'C01', 'F03', 'D05'], 'sasatom.c': ['B03'], 'sasatom.h': ['B03', 'B01'], 'sasatom_x86_64.h': ['B03', 'B01'], 'sasatom_generic.h': ['B03'],
 'sascompoundheap.cpp': ['C03', 'C06', 'F03', 'D05', 'A04'], 'sasindex.cpp': ['D01', 'D05', 'D03', 'C06', 'A04'], 'sasindexenum.cpp': ['D03'], 'sasindexkey.h': ['D04', 'D01'],
 'sasindexnode.cpp': ['D07', 'D01', 'D05', 'D03', 'D06'], 'sasindexpriv.h': ['D01', 'D05'], 'sasindexnodepriv.h': ['D01', 'D05'],
 'saslock.cpp': ['B01', 'A03', 'A05'], 'saslockl.cpp': ['B01'], 'sasmlock.cpp': ['B01', 'A05'], 'sasulock.cpp': ['B01', 'B02', 'A05'],
 'sasmsync.c': ['F03'], 'sasshm.c': ['A05', 'A06'], 'sasio.c': ['A05'], 'sasstname.c': ['A05', 'A06'],
 'sassim.cpp': ['A05', 'A02', 'A01', 'A06', 'B02', 'A03', 'A04'], 'sassimpleheap.cpp': ['C01', 'C06', 'C03', 'D06', 'A04'], 'sassimplespace.cpp': ['C02', 'C06'], 'sassimplestack.cpp': ['C02', 'C06'],
 'sasstringbtree.cpp': ['D02', 'D07', 'D05', 'D03', 'C06', 'A04'], 'sasstringbtreeenum.cpp': ['D03'], 'sasstringbtreenode.cpp': ['D07', 'D02', 'D05', 'D03', 'D06'],
 'sasutil.c': ['A05'], 'sphcontext.cpp': ['D06', 'A03', 'A04'], 'sphdirectpcqueue.h': ['E04', 'E03', 'E05'], 'sphgettime.c': ['F01'], 'sphgtod.c': ['F01'], 'sphgettime.h': ['F01'], 'sphtimer.c': ['F01'], 'sphtimer.h': ['F01', 'E01'],
 'sphlfentry.h': ['E03', 'E01', 'E04', 'E07'], 'sphlflogentry.h': ['E03', 'E01', 'E02'], 'sphlflogger.cpp': ['E01', 'E02', 'E06', 'F03'], 'sphlflogger.h': ['E01', 'E02'],
 'sphlockfreeheap.cpp': ['C04', 'C05', 'C06'], 'sphlogportal.cpp': ['E06', 'E02', 'E01'], 'sphmultipcqueue.cpp': ['E07', 'F03'], 'sphmultipcqueue.h': ['E07'],
 'sphsinglepcqueue.cpp': ['E04', 'E05', 'F03', 'E03'], 'sphthread.c': ['F02'],
 'sastype.h': ['C06', 'A01'], 'sasallocpriv.h': ['C06', 'A01'], 'sasconf.h': ['A01', 'A06'],
}
f, n, secs = sys.argv[1], int(sys.argv[2]), sys.argv[3]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
lo, hi = (map(int, sys.argv[5].split('-')) if len(sys.argv) > 5 else (1, 10**9))
props = os.environ.get('MPROPS', '').split(',') if os.environ.get('MPROPS') else MAP[f]
rng = random.Random(seed)
text = open(SRC + '/' + f).read(); lines = text.split('\n')
# mutable lines: not in comments, not preprocessor, not prints
code = []; incom = False
for i, l in enumerate(lines):
    s = l
    if incom:
        if '*/' in s: incom = False; s = s.split('*/', 1)[1]
        else: continue
    if '/*' in s and '*/' not in s.split('/*', 1)[1]: incom = True; s = s.split('/*', 1)[0]
    t = s.strip()
    if not t or t.startswith(('//', '#', '*', 'extern', 'typedef', 'sas_printf', 'printf', '{', '}', 'static inline', 'case', 'default', 'break')): continue
    if re.match(r'^[A-Za-z_].*[^;{})]$', s) and not s.startswith((' ', '\t')): continue
    if lo <= i + 1 <= hi: code.append(i)
SW = [('<=', ['<', '==']), ('>=', ['>', '==']), ('==', ['!=', '<=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), ('<<', ['>>']), ('>>', ['<<']), ('++', ['--']), ('--', ['++']), ('+=', ['-=']), ('-=', ['+=']), ('|=', ['&=']), ('&=', ['|=']),
      (' < ', [' <= ']), (' > ', [' >= ']), (' + ', [' - ']), (' - ', [' + ']), (' * ', [' + ']), (' / ', [' * ']), (' & ', [' | ']), (' | ', [' & '])]
def muts(l):
    out = []
    body = l.split('//')[0].split('/*')[0]
    strs = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', body)]
    ins = lambda p: any(a <= p < b for a, b in strs)
    for op, rep in SW:
        p = body.find(op)
        while p >= 0:
            nb = body[max(0, p-1):p+len(op)+1]
            ok = not ins(p) and '->' not in body[max(0,p-1):p+2]
            if op in ('<<', '>>') and body[p:p+3] in ('<<=', '>>='): ok = False
            if op in ('==',) and body[p-1:p] in '<>!=': ok = False
            if ok:
                for r in rep: out.append(body[:p] + r + body[p+len(op):])
            p = body.find(op, p + len(op))
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', body):
        if ins(m.start()): continue
        v = int(m.group(1), 0)
        for d in (1, -1):
            if v + d >= 0: out.append(body[:m.start()] + str(v + d) + body[m.end():])
    m = re.match(r'^(\s*)((?!return|if|while|for|else|do|goto|int|long|char|void|unsigned|block_size|static|const|struct|\w+_t\b)[\w\*\(].*;)\s*$', body)
    if m and body.count('(') == body.count(')'): out += [m.group(1) + ';'] * 2
    m = re.match(r'^(\s*(?:}\s*)?(?:else )?if\s*)\((.*)\)(\s*{?\s*)$', body)
    if m and body.count('(') == body.count(')'): out += [m.group(1) + '(0 && (' + m.group(2) + '))' + m.group(3), m.group(1) + '(1 || (' + m.group(2) + '))' + m.group(3)]
    return [o for o in out if o != body]
allm = [(i, x) for i in code for x in muts(lines[i])]
if os.environ.get('LOCKS'):                       # remove a lock with its unlocks, or take it for reading only
    allm = []
    for i in code:
        m = re.match(r'^(\s*)SASLock\s*\((.*), *(SasUserLock__(?:WRITE|READ))\);', lines[i])
        if not m: continue
        if m.group(3).endswith('WRITE'): allm.append((i, lines[i].replace('WRITE', 'READ')))
        j = i + 1; un = []
        while j < len(lines) and not lines[j].startswith('}'):
            u = re.match(r'^(\s*)SASUnlock\s*\((.*)\);', lines[j])
            if u and u.group(2).strip() == m.group(2).strip(): un.append(j)
            j += 1
        if un: allm.append((i, m.group(1) + ';', un))
    if os.environ['LOCKS'] == '2': allm = [(i, re.match(r'^\s*', lines[i]).group(0) + ';') for i in code if re.match(r'^\s*SAS(Lock|Unlock)\s*\(.*\);\s*$', lines[i])]
rng.shuffle(allm)
print(f, len(allm), 'possible mutants', flush=True)
W = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
need = []
for p in props:
    for h, v, w in PROPS[p]['harness']: need.append((p, h, v, w))
objs = {}
for v in sorted(set(v for _, _, v, _ in need)):
    for p, h, vv, w in need:
        if vv == v: B.build(h, v)
    objs[v] = os.path.join(B.BUILD, 'v-%s-%s' % (v, B.src_key(v)))
def compile1(src, out, v, inc, har=False, extra=False):
    vv = B.VARIANTS[v]
    fl = [x for x in B.BASE if not x.startswith('-I') and x != '-g'] + ['-I' + inc] + ([] if extra else (vv['har'] if har else vv['lib']))
    cc = ['g++'] + B.CXX if src.endswith('.cpp') else ['gcc']
    return subprocess.run(cc + fl + ['-c', src, '-o', out], capture_output=True).returncode
def texthash(o):
    return hashlib.sha1(subprocess.run(['objdump', '-d', '-s', '-j', '.text', '-j', '.rodata', '-j', '.data', o], capture_output=True).stdout.split(b'\n', 3)[3]).hexdigest()
hdr = f.endswith('.h')
base = {}
def basehash(s, v):
    with lk:
        if (s, v) not in base:
            o = W + '/base-%s-%s.o' % (os.path.basename(s), v)
            compile1(s, o, v, SRC); base[(s, v)] = texthash(o)
        return base[(s, v)]
lk = threading.Lock(); cnt = dict(done=0, killed=0, equiv=0, nocomp=0, surv=0)
def one(k):
    i, new = allm[k][:2]
    d = W + '/m%d' % k; os.makedirs(d)
    try:
        inc = d + '/src'; os.makedirs(inc)
        for x in os.listdir(SRC):
            if x.endswith(('.h', '.c', '.cpp')) and x != f: os.symlink(SRC + '/' + x, inc + '/' + x)
        ls = lines[:]; ls[i] = new
        for j in (allm[k][2] if len(allm[k]) > 2 else []): ls[j] = ';'
        open(inc + '/' + f, 'w').write('\n'.join(ls))
        built = {}
        eq = True
        for p, h, v, w in need:
            if v not in built:
                o = {}
                for s in B.sources(v):
                    b = os.path.basename(s)
                    if b == f or hdr:
                        out = d + '/%s-%s.o' % (b, v)
                        if compile1(inc + '/' + b, out, v, inc): return 'nocomp', ''
                        o[b] = out
                        if hdr: eq = False
                        elif texthash(out) != basehash(s, v): eq = False
                    else: o[b] = objs[v] + '/' + b + '.o'
                if eq and not hdr: return 'equiv', ''
                built[v] = o
            vv = B.VARIANTS[v]
            ho = []
            for s in [h] + vv.get('extra', []):
                out = d + '/h-%s-%s.o' % (s, v)
                if not os.path.exists(out):
                    if hdr or True:
                        # reuse the harness object when only a source changed
                        c = [x for x in os.listdir(objs[v]) if x.startswith(s + '-') and x.endswith('.o')]
                        if not hdr and c:
                            c.sort(key=lambda x: os.path.getmtime(objs[v] + '/' + x)); out = objs[v] + '/' + c[-1]
                        elif compile1(B.H + '/' + s, out, v, inc, True, s in vv.get('extra', [])): return 'nocomp', ''
                ho.append(out)
            c = [x for x in os.listdir(objs[v]) if x.startswith('pbt-')]; c.sort(key=lambda x: os.path.getmtime(objs[v] + '/' + x))
            exe = d + '/exe-%s-%s' % (h, v)
            if not os.path.exists(exe):
                r = subprocess.run(['g++', '-pthread', '-rdynamic'] + ho + [objs[v] + '/' + c[-1]] + list(built[v].values()) + vv['link'] + ['-o', exe, '-lrt', '-ldl'], capture_output=True)
                if r.returncode: return 'nolink', r.stderr.decode()[-300:]
            sd = d + '/s'; os.makedirs(sd, exist_ok=True)
            try: r = subprocess.run([exe, '--prop', p, '--secs', secs, '--seed', '7', '--scratch', sd, '--workers', '2'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=float(secs) + 120)
            except subprocess.TimeoutExpired: return 'killed', p + ':timeout'
            shutil.rmtree(sd, ignore_errors=True)
            try: j = json.loads(r.stdout)
            except ValueError: return 'killed', p + ':noresult'
            if j['failure']: return 'killed', p + ' ' + j['failure']['sig']
            if j['lost_workers']: return 'killed', p + ':lost'
            if sum(t['evals'] for w in j['workers'] for t in w) == 0: return 'killed', p + ':no evals'
        return 'surv', ''
    except Exception as e: return 'err', repr(e)
    finally: shutil.rmtree(d, ignore_errors=True)
target = n
def go(k):
    with lk:
        if cnt['killed'] + cnt['surv'] >= target: return
    st, why = one(k)
    with lk:
        cnt[st] = cnt.get(st, 0) + 1; cnt['done'] += 1
        if st == 'surv': print('SURVIVES %s:%d\n   - %s\n   + %s' % (f, allm[k][0] + 1, lines[allm[k][0]].strip(), allm[k][1].strip()), flush=True)
        elif st in ('nolink', 'err'): print(st, why, flush=True)
        elif os.environ.get('MV'): print(st, why, allm[k][0] + 1, allm[k][1].strip(), flush=True)
with ThreadPoolExecutor(4) as ex: list(ex.map(go, range(len(allm))))
shutil.rmtree(W, ignore_errors=True)
print(f, cnt, flush=True)
