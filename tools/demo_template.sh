#!/bin/sh
# exit 0: behaviour as specified; nonzero: broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 9
d="$t/demo"; mkdir "$d"
trap 'rm -rf "$t"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOCACHE="$t/gocache" TMPDIR="$t"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
printf 'module demo\n\ngo 1.21\n\nrequire github.com/benedoc-inc/pdfer v0.0.0\n\nreplace github.com/benedoc-inc/pdfer => %s\n' "$repo" > "$d/go.mod"
cp "$here"/*.go "$d"/
cd "$d" && go build -o demo . && ./demo
