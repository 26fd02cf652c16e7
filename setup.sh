#!/bin/bash
# builds every monitor once (warms the build cache, nothing is kept)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/harness" || exit 1
dir=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
for d in cmd/*/; do
	race=
	[ "$d" = cmd/hrace/ ] && race=-race
	go build $race -o "$dir/x" "./$d" || exit 1
done
