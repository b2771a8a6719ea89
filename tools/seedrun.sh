#!/bin/bash
# seedrun.sh valid|check SEEDDIR [PROP...]
# Works in a mount namespace of its own: scratch copies of /repo, /opt/vp and /verif are bound over
# the real ones, so that nothing outside /tmp/seed.* is touched and several can run at once.
set -u
mode=$1; seed=$(realpath "$2"); shift 2
if [ -z "${SEED_INNER:-}" ]; then
    S=$(mktemp -d /tmp/seed.XXXXXX)
    mkdir $S/s; cp -a "$seed" $S/s/; n=$(basename "$seed")
    cp -a /repo $S/repo; git -C $S/repo checkout -q -- .
    cp -a /opt/vp $S/vp
    mkdir $S/verif; (cd /verif && cp -a $(ls -A | grep -v -x -e seeded -e .git) $S/verif/)
    SEED_INNER=$S unshare -m bash "$0" $mode $S/s/$n "$@"
    rc=$?
    rm -rf "$S"
    exit $rc
fi
S=$SEED_INNER
mount --make-rprivate /
mount --bind $S/repo /repo; mount --bind $S/vp /opt/vp; mount --bind $S/verif /verif
id=${SEED_NAME:-$(basename "$seed")}
cd /repo
if [ $mode = valid ]; then
    bash /opt/vp/build.sh > $S/b0.log 2>&1 || { echo "$id: base does not build"; exit 1; }
    timeout 300 bash $seed/demo.sh > $S/d0.log 2>&1; echo "$id: demo on base -> $?"
    git apply $seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
    bash /opt/vp/build.sh > $S/b1.log 2>&1 || { echo "$id: DOES NOT BUILD"; grep -A8 '^error' $S/b1.log | head -30; exit 1; }
    timeout 300 bash $seed/demo.sh > $S/d1.log 2>&1; echo "$id: demo on patch -> $?"; tail -4 $S/d1.log
    bash /opt/vp/test.sh $S/t.json > $S/t.log 2>&1
    python3 - $S/t.json $id <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(t['passed']))
print('%s: stable tests failing: %d %s' % (sys.argv[2], len(miss), miss[:4]))
PY
    tail -3 $S/d0.log | sed 's/^/  base: /'
else
    git apply $seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
    for p in "$@"; do
        cd /verif; python3 tools/check.py $p > $S/c.log 2> $S/c.err; rc=$?
        echo "$id: $p -> $rc $(grep -c ^VIOLATION $S/c.log) | $(grep ^first $S/c.log | cut -c1-160)"
        [ $rc = 2 ] && tail -5 $S/c.err
    done
fi
exit 0
