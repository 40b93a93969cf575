# r.sh harness prop secs [args]: build and run
h=$1; p=$2; s=$3; shift 3
v=plain; case $h in *:*) v=${h#*:}; h=${h%%:*};; esac
E=$(python3 /verif/tools/build.py $h:$v) || exit 1; E=${E%% *}
$E --prop $p --secs $s "$@" | python3 -c '
import json,sys
t=sys.stdin.read()
try: d=json.loads(t)
except Exception: print(t[:3000]); raise
if "workers" not in d: print(json.dumps(d)[:3000]); sys.exit()
agg={}
for w in d["workers"]:
  for t in w:
    a=agg.setdefault(t["test"],{"evals":0,"disc":0,"unrep":0,"c":{}})
    a["evals"]+=t["evals"];a["disc"]+=t["discards"];a["unrep"]+=t["unreproduced"]
    for k,v in t["counters"].items(): a["c"][k]=a["c"].get(k,0)+v
for k,a in agg.items(): print(k,a,"distinct",d["distinct"].get(k))
if d["lost_workers"]: print("LOST",d["lost_workers"])
f=d["failure"]
if f: print("FAIL",f["test"],f["sig"],f["msg"]); print("choices",f["choices"][:200]); print(f["trace"][-3500:])
'
