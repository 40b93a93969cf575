# mk.py: reads a seed description from stdin: python dict with id, prop, needs, breaks, file, old, new, demo (body of main)
import sys,os,json,subprocess,shutil
d=eval(sys.stdin.read())
S='/verif/seeded/'+d['id']; os.makedirs(S,exist_ok=True)
edits=d['edits'] if 'edits' in d else [(d['file'],d['old'],d['new'])]
W='/tmp/mk/wt'; shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(['git','-C','/repo','worktree','prune'])
subprocess.check_call(['git','-C','/repo','archive','-o','/tmp/mk/a.tar','HEAD','src']); os.makedirs(W); subprocess.check_call(['tar','xf','/tmp/mk/a.tar','-C',W])
subprocess.check_call('cp -r src src0',shell=True,cwd=W)
for f,o,n in edits:
    p=W+'/'+f; s=open(p).read(); k=d.get('nth',{}).get(f,0) if isinstance(d.get('nth'),dict) else 0
    if s.count(o)!=1 and not d.get('first'): print('old text occurs',s.count(o),'times in',f); sys.exit(1)
    s=s.replace(o,n,1); open(p,'w').write(s)
out=subprocess.run(['git','diff','--no-index','--no-prefix','src0','src'],cwd=W,capture_output=True,text=True).stdout
out=out.replace('src0/','a/src/').replace('--- src/','--- a/src/')
import re
out=re.sub(r'diff --git a/src/(\S+) src/\1',r'diff --git a/src/\1 b/src/\1',out); out=re.sub(r'\+\+\+ src/',r'+++ b/src/',out)
open(S+'/patch.diff','w').write(out)
shutil.copy('/tmp/mk/demo.sh',S+'/demo.sh')
pre='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <string>
#include <vector>
#include <map>
#include <set>
extern "C" {
#include "sasalloc.h"
#include "sassim.h"
#include "saslock.h"
#include "sassimpleheap.h"
#include "sassimplespace.h"
#include "sassimplestack.h"
#include "sascompoundheap.h"
#include "sasatom.h"
#include "sasindex.h"
#include "sasindexenum.h"
#include "sasindexkey.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sphcontext.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlfentry.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphcompoundpcqheap.h"
#include "sphlogportal.h"
#include "sphtimer.h"
#include "sphthread.h"
#include "sasmsync.h"
}
#define BAD(...) do { printf(__VA_ARGS__); printf("\\n"); return 1; } while (0)
'''
open(S+'/demo.cpp','w').write(pre+d['demo'])
json.dump({'property':d['prop'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(S+'/meta.json','w'),indent=1)
print(open(S+'/patch.diff').read())
