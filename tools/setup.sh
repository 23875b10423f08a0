#!/bin/bash
# Nothing is built ahead of a check; make sure the tools are there and the specification parses.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python && command -v java >/dev/null && test -x /usr/lib/postgresql/16/bin/initdb
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd spec
for m in *.tla; do
  java -Djava.io.tmpdir="$d" -XX:TieredStopAtLevel=1 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/log" 2>&1 || { cat "$d/log"; exit 1; }
done
echo "specification parses"
