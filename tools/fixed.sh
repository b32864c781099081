#!/bin/bash
# tools/fixed.sh Cxx hash...   records fix commits of /repo in known_findings.txt
id=$1; shift
for h in "$@"; do echo "fixed: property=$id $h violated before: $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')"; done >> "$(dirname "$0")/../known_findings.txt"
