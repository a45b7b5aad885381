#!/bin/bash
# Nothing to install: check that the tools and the specifications are usable.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p out evidence
java -version >/dev/null 2>&1 || exit 1
T=$(mktemp -d) ; cp spec/*.tla "$T"/
cd "$T" && for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$f.log" 2>&1 || { cat "$f.log"; exit 1; }
done
rm -rf "$T"
