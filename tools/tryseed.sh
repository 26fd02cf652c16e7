#!/bin/bash
# usage: tryseed.sh ID [notest]   validates a planted change and runs the check of its property against it
d=/verif/seeded/$1
[ -z "$(git -C /repo status --short)" ] || { echo "repo not clean"; exit 3; }
cd /repo || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
. /opt/vp/env.sh
bash $d/demo.sh > /tmp/demo0.log 2>&1 || { echo "$1: demo fails on the clean tree"; tail -5 /tmp/demo0.log; exit 1; }
git apply $d/patch.diff || { echo "$1: does not apply"; exit 1; }
go build ./... || { echo "$1: does not build"; exit 1; }
bash $d/demo.sh > /tmp/demo1.log 2>&1 && { echo "$1: demo passes with the patch"; exit 1; }
if [ "$2" != notest ]; then
	bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
	tail -1 /tmp/seedtest.log
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if bash /verif/check.sh $p quick > /tmp/seedcheck.log 2>&1; then echo "$1: MISSED by $p"; else echo "$1: $(grep -m1 VIOLATION /tmp/seedcheck.log) $(grep -m1 '\[' /tmp/seedcheck.log | cut -c1-150)"; fi
