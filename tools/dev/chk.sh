# chk.sh SEED PROP...: run quick checks on /repo with the seed applied
s=$1; shift; git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for p in "$@"; do (cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $p 2>&1 | tail -2 | cut -c1-300; echo "$s $p rc=${PIPESTATUS[0]}"); done
git -C /repo checkout -q -- .
