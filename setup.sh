#!/bin/bash
# Nothing is installed: verify that the offline toolchain the checks need is there.
set -e
cd "$(dirname "$0")"
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))'
mkdir -p evidence out
echo setup ok
