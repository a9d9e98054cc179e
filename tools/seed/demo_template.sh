#!/bin/bash
# Runs the demonstration beside this file inside package @PKG@ of the tree in the
# current directory, through a build overlay; nothing is written in the tree.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
sed -E "s#^([[:space:]]*)(use[[:space:]]+)?(\./)?src/#\1\2$R/src/#" go.work > "$T/go.work"
cat /opt/vp/gowork/base.sum go.work.sum 2>/dev/null | LC_ALL=C sort -u > "$T/go.work.sum"
export GOWORK=$T/go.work
P=$R/@PKG@
{
  printf '{"Replace":{'
  for f in "$P"/*_test.go; do [ -e "$f" ] && printf '"%s":"",' "$f"; done
  for f in "$D"/*.go.txt; do [ -e "$f" ] || continue
    b=$(basename "$f" .go.txt); printf '"%s":"%s",' "$P/zz_${b}_test.go" "$f"; done
  printf '"%s":"%s"}}' "$P/zz_demo_test.go" "$D/demo_test.go"
} > "$T/overlay.json"
mkdir "$T/scratch"
go test -c -vet=off -overlay "$T/overlay.json" -o "$T/demo.test" "./@PKG@" || exit 2
cd "$T/scratch" || exit 2
export TMPDIR=$T/scratch
timeout 240 "$T/demo.test" -test.v -test.run '^TestDemo' -test.timeout 200s
