#!/bin/bash
# usage: check.sh ID [quick|thorough] [harness options, e.g. -case N]
# Builds the monitor of the property from /repo's current tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export VERIF_TIER=$tier
case $id in
B*) bin=hbidi ;;
F*) bin=hfc ;;
P*) bin=hpango ;;
*) echo "unknown property $id"; exit 3 ;;
esac
race=
case $id in
F15|P18) race=-race; bin=hrace ;;
esac
dir=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
cd "$here/harness" || exit 3
if ! go build $race -o "$dir/$bin" "./cmd/$bin" > "$dir/log" 2>&1; then
	cat "$dir/log"
	echo "build failed"
	exit 3
fi
"$dir/$bin" -prop "$id" -tier "$tier" -verif "$here" "$@"
exit $?
