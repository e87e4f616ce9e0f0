#!/bin/bash
# seedtest.sh ID [notest]: confirms a planted bug in a scratch copy: applies,
# builds, passes the tests, demo 0 without and non-zero with it; then runs the
# checks against the patched copy.
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedw
. /opt/vp/env.sh
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W checkout -q -- . ; git -C $W clean -fdq x app util 2>/dev/null
git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
cd $W
S=/tmp/seeddemo; mkdir -p $S; cp $D/* $S/; 
bash $S/demo.sh > /tmp/seed_demo0.txt 2>&1; echo "demo clean: $?"
git -C $W apply $D/patch.diff || exit 1
go build ./... || { echo BUILD FAILS; exit 1; }
bash $S/demo.sh > /tmp/seed_demo1.txt 2>&1; echo "demo patched: $?"; grep -- "--- FAIL\|zz_verif\|panic:" /tmp/seed_demo1.txt | head -4
if [ "$2" != notest ]; then go test -vet=off ./x/... 2>&1 | grep -v "no test files\|^ok" | grep "FAIL\|panic" | head -10; echo "tests done"; fi
export KYVELINT_VERIF=/tmp/kv KYVELINT_REPO=$W; mkdir -p /tmp/kv; cp /verif/known_findings.txt /tmp/kv/
/verif/bin/kyvelint check all 2>&1 | grep -v ^OK | cut -c1-400 | head -${N:-12}
rm -rf /tmp/seeddemo; git -C $W checkout -q -- .
