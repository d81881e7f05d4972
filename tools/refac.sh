#!/bin/bash
# usage: refac.sh OP[+OP...] [build]  -- apply refactorings everywhere in a copy and run every proof root on it
. /opt/vp/env.sh
op=$1; d=/tmp/refac-$op
/bin/rm -rf "$d"; cp -a /repo "$d"; /bin/rm -rf "$d/.git"
cd "$d" || exit 1
export REFAC_KEEP="$(cat $(find . -name '*_test.go') | grep -oE '\b[a-z_][A-Za-z0-9_]*' | sort -u | tr '\n' ' ')"
for o in ${op//+/ }; do for p in ${PKGS:-./protocol ./protocol/extra .}; do /tmp/refac "$d" $o $p || echo "refac fails on $p"; done; done | tr '\n' ' '
export TMPDIR=$d/.tmp; mkdir -p $TMPDIR
go build ./... > $d/build.log 2>&1 || { echo "NOBUILD $op"; head -20 $d/build.log; exit 1; }
go test -vet=off -count=1 ./... > $d/test.log 2>&1 || { echo "TESTS $op"; grep -- '--- FAIL' $d/test.log | head; }
[ "$2" = build ] && exit 0
GOVC_REPO=$d timeout 1500 /tmp/govc roots : > /tmp/refac-$op.txt 2>&1
echo "$op ok=$(grep -c '^ok' /tmp/refac-$op.txt) fail=$(grep FAIL /tmp/refac-$op.txt | grep -v lemma: | awk '{print $2,$3}' | tr '\n' ';')"
/bin/rm -rf "$d"
