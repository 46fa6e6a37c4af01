#!/bin/bash
# Checks that the tools are there and that every specification parses; the checks need nothing else built.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import numpy, scipy"
d=$(mktemp -d); cp spec/*.tla "$d"; cd "$d"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in MC_*.tla TR_*.tla; do
  java -cp $CP tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; exit 1; }
  if grep -q "Semantic errors\|Parse Error\|Fatal errors" out.txt; then cat out.txt; exit 1; fi
done
rm -rf "$d"
echo setup ok
