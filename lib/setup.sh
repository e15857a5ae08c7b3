#!/bin/bash
# nothing to compile: check that TLC parses every specification module
cd "$(dirname "$0")/../spec" || exit 1
fail=0
for f in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1) || { echo "$f does not parse"; echo "$out" | tail -20; fail=1; }
done
exit $fail
