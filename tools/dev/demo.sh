#!/bin/bash
# Run in the repository's root after the build: 0 if the property holds, nonzero if not.
D=$(dirname "$(realpath "$0")")
T=$(mktemp -d /tmp/demo.XXXXXX)
shm() { awk 'NR>1 {print $2}' /proc/sysvipc/shm | sort; }
before=$(shm)
clean() { rm -rf "$T"; for i in $(comm -13 <(echo "$before") <(shm)); do ipcrm -m "$i" 2>/dev/null; done; }
trap clean EXIT
mkdir "$T/store"; export SASSTOREPATH=$T/store
g++ -O1 -g -w -fpermissive -I"$PWD/src" "$D/demo.cpp" -o "$T/demo" "$PWD/_build/src/.libs/libsphde.a" -lpthread -lrt || exit 99
timeout -s KILL 120 "$T/demo"; rc=$?
[ $rc -eq 0 ] || echo "demo failed: $rc"
exit $rc
