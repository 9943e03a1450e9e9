#!/bin/bash
# nothing to build: check that the toolchain is there and that every module parses
cd "$(dirname "$0")/spec" || exit 1
test -x /opt/venv/bin/python || exit 1
T=$(mktemp -d /tmp/dpdsetup.XXXXXX) || exit 1
trap '/bin/rm -rf "$T"' EXIT
for f in *.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >"$T/out" 2>&1 || { cat "$T/out"; exit 1; }
  if grep -qi "error" "$T/out"; then cat "$T/out"; exit 1; fi
done
echo "specification parses"
