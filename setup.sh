#!/bin/bash
# Offline setup: parse every specification and compile-check the harness. Nothing is installed.
cd "$(dirname "$0")" || exit 1
D=$(mktemp -d) || exit 1
trap 'rm -rf "$D"' EXIT
cp spec/*.tla "$D"/ && cd "$D" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$f.log" 2>&1 || { cat "$f.log"; exit 1; }
done
echo "setup ok: $(ls *.tla | wc -l) specifications parsed"
