#!/bin/bash
# usage: bash demo.sh, in a checkout of the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo.go"}}' "$PWD" "PKG" "$here" > "$t/o.json"
export DEMO_DIR="$here"
cd MOD && go test -vet=off -overlay "$t/o.json" -count=1 -timeout 120s -run '^TestDemo$' RACE ./REL
