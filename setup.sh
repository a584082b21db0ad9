#!/bin/sh
# nothing to build: checks that the tools are there and the specification parses
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
cp spec/*.tla "$d"
for m in MC Trace; do
    (cd "$d" && java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY $m.tla > "$d/out" 2>&1) || { cat "$d/out"; exit 1; }
done
case "$d" in /tmp/*) rm -rf "$d" ;; esac
/opt/venv/bin/python -c 'import lxml, yaml, jsonschema'
gcc -shared -fPIC -o "$d.so" harness/nativelib/ucis.c && rm -f "$d.so"
mkdir -p evidence
