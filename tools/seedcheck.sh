#!/bin/bash
# seedcheck.sh ID [tests]: in a copy of /repo: demo on the clean tree, then on the patched tree; the property's check on the
# patched tree; with "tests" also the whole suite
. /opt/vp/env.sh
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/scXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo/. $W/; cd $W; git checkout -q -- .
bash $D/demo.sh >$W.d0 2>&1; a=$?
git apply $D/patch.diff || { echo "$1 does not apply"; exit 2; }
go build ./... ; b=$?
bash $D/demo.sh >$W.d1 2>&1; c=$?
t=skipped
if [ "$2" = tests ]; then go test ./... >$W.t 2>&1; t=$?; [ $t = 0 ] || grep -h "^--- FAIL\|\[FAIL\]\|^FAIL" $W.t | head -3; fi
VERIF_SEED=1 timeout 900 /tmp/gover -prop $P -tier quick -repo $W -verif /verif -out $W.o > $W.c 2>&1; d=$?
echo "$1 prop=$P demo-clean=$a build=$b demo-patched=$c tests=$t check=$d $(grep -h VIOLATION $W.c | head -2 | sed 's/.*replays//' | tr '\n' ' ')"
[ $a = 0 ] || tail -5 $W.d0; [ $c = 0 ] && tail -3 $W.d1
rm -rf $W.o $W.d0 $W.d1 $W.t $W.c
