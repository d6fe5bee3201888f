#!/bin/bash
# Parses every specification once; the checks build their own harnesses.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
which java g++ python3 >/dev/null || exit 1
cd spec || exit 1
rc=0
for f in *.tla; do
    out=$(java -Xmx1g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1)
    if [ $? -ne 0 ] || grep -q "errors\|Parse Error\|Could not" <<<"$out"; then echo "$f: $out" | tail -5; rc=1; fi
done
exit $rc
