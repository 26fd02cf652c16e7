#!/bin/bash
# addfixed.sh PROPERTY : records the fix commits of /repo which are not listed yet
git -C /repo log --reverse --format='%h %s' | grep ' fix: ' | while read -r h s; do
  grep -q "$h" "$(dirname "$0")/../KNOWN_FINDINGS.txt" || echo "fixed: property=$1 $h ${s#fix: }" >> "$(dirname "$0")/../KNOWN_FINDINGS.txt"
done
