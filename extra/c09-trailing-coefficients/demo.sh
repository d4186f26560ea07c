#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
echo '{"Replace":{"'$PWD'/pkg/frost/common_verif_test.go":"'$here'/common_test.go","'$PWD'/pkg/frost/demo_verif_test.go":"'$here'/demo_test.go"}}' > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestDemo' ./pkg/frost
