#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy, then runs its property's check against the copy.
id=$1; s=/verif/seeded/$id; w=/tmp/seed.$id.$$
. /opt/vp/env.sh
rm -rf "$w"; cp -a /repo "$w" || exit 2
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
d=/tmp/seeddemo.$id.$$; mkdir -p $d; cp -a $s/. $d/; rm -f $d/*.diff $d/meta.json
( cd "$w" && bash $d/demo.sh >/tmp/seedlog.$id 2>&1 ); a=$?
( cd "$w" && git apply "$s/patch.diff" ) || { echo "$id: patch does not apply"; rm -rf "$w" $d; exit 1; }
( cd "$w" && go build ./... ) || echo "$id: BUILD FAILS"
t=$( cd "$w" && go test ./... 2>&1 | grep -c '^--- FAIL\|^FAIL' )
( cd "$w" && bash $d/demo.sh >>/tmp/seedlog.$id 2>&1 ); b=$?
echo "$id ($prop): demo clean=$a patched=$b testfails=$t"
[ "$a" = 0 ] && [ "$b" != 0 ] && [ "$t" = 0 ] || { echo "  INVALID"; tail -20 /tmp/seedlog.$id; }
if [ -z "$2" ]; then
  GOVC_REPO="$w" GOVC_EVID=/tmp/seedev.$id bash /verif/check.sh $prop quick >/tmp/seedchk.$id 2>&1; echo "  check rc=$?"; grep VIOLATION /tmp/seedchk.$id | head -3
fi
rm -rf "$w" $d
