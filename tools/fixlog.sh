#!/bin/bash
# fixlog.sh PROPERTY "commit subject grep" "what failed": records a repaired defect.
h=$(git -C /repo log --format=%h --grep="$2" | head -1)
[ -n "$h" ] || { echo "no commit matches $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> "$(dirname "$0")/../known_findings.txt"
