#!/bin/bash
# fixed.sh PROPERTY COMMIT: adds a fixed line for a commit of /repo to KNOWN_FINDINGS.txt
set -e
m=$(git -C /repo log -1 --format=%s "$2"); m=${m#fix: }
echo "fixed: property=$1 $(git -C /repo rev-parse --short "$2") $m" >> "$(dirname "$0")/../KNOWN_FINDINGS.txt"
