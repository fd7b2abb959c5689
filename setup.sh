#!/bin/bash
# Nothing to compile: check that the tools the checks use are there and the specifications parse.
cd "$(dirname "$0")" || exit 1
set -e
test -x /opt/venv/bin/python
T=$(mktemp -d /tmp/verif_setup.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"/
for f in "$T"/*.tla; do
  (cd "$T" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > sany.log 2>&1) || { cat "$T/sany.log"; exit 1; }
done
echo "specifications parse"
