#!/bin/bash
# usage: mkseed.sh ID PKG PROPERTY NEEDS BREAKS  (the change being applied in /repo, the test on stdin)
# records the change as /verif/seeded/ID and undoes it
d=/verif/seeded/$1; mkdir -p $d
git -C ${REPO:-/repo} diff > $d/patch.diff
git -C ${REPO:-/repo} checkout -q -- .
cat > $d/demo_test.go.txt
cat > $d/demo.sh <<'X'
#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/ov.json"
go test -overlay "$t/ov.json" -vet=off -run '^TestZZDemo$' -count=1 ./PKG
X
sed -i "s#PKG#$2#g" $d/demo.sh
python3 - "$d" "$3" "$4" "$5" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
X
