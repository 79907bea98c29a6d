#!/bin/bash
# tools/fixed.sh PROP "what failed" [rev]  - record a repair committed in /repo
echo "fixed: property=$1 $(git -C /repo rev-parse --short=10 ${3:-HEAD}) $2" >> "$(dirname "$0")/../known_findings.txt"
