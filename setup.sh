#!/bin/bash
# Offline, nothing to build: verify that the toolchain and every specification parse.
cd "$(dirname "$0")/spec" || exit 1
T=$(mktemp -d)
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
rc=0
for f in *.tla; do
  java -Djava.io.tmpdir="$T" -cp $J tla2sany.SANY "$f" > "$T/o" 2>&1 || { cat "$T/o"; rc=1; }
done
/opt/venv/bin/python -c 'import numpy, scipy, matplotlib' || rc=1
rm -rf "$T"
exit $rc
