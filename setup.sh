#!/bin/bash
# setup.sh: warm the build caches (every check still builds what it needs itself) and check that
# the rewritten code behaves like the original on the repository's own tests.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
( cd "$here/tools/instr" && go build -o "$work/instr" . ) || exit 1
# as in run.sh
mkdir -p "$work/mod" && cp "$repo/go.mod" "$repo/go.sum" "$work/mod/" 2>/dev/null &&
  sed -i -E 's/^go 1\.(1[0-9]|[0-9])(\.[0-9]+)?[[:space:]]*$/go 1.20/' "$work/mod/go.mod" && export GOFLAGS="$GOFLAGS -modfile=$work/mod/go.mod"
for m in none full sync; do
  mkdir -p "$work/$m"
  "$work/instr" -repo "$repo" -verif "$here" -mode "$m" -out "$work/$m" || exit 1
  ( cd "$repo" && go build -overlay "$work/$m/overlay.json" -o "$work/h-$m" ./zzverif/harness ) || exit 1
done
# selftests of the scheduler and network, and the repository's tests on the rewritten code
( cd "$repo" && go test -vet=off -count=1 -overlay "$work/full/overlay.json" ./serialization/ ./transport/ ) || exit 1
echo setup ok
