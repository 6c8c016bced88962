#!/bin/bash
# Runs demo_test.go.txt as an external test of the package named in ./pkg, through an overlay:
# nothing is written to the repository.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
pkg=$(cat "$d/pkg")
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<J
{"Replace": {"$PWD/$pkg/zz_demo_test.go": "$d/demo_test.go.txt", "$PWD/$pkg/zz_helper_test.go": "$d/helper_test.go.txt"}}
J
go test -vet=off -overlay "$t/o.json" -run 'TestDemo' -count=1 -timeout 200s "./$pkg"
