#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra harness flags]: decide one property on /repo's working tree.
# Exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 3: no answer (nothing was explored).
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
note=
fail() { # evidence for a tree the machinery cannot be built on: nothing explored, nothing claimed
  mkdir -p "$here/evidence"
  python3 - "$prop" "$tier" "$here/evidence/$prop.json" "$1" <<'PY'
import json,sys,os
json.dump({"property":sys.argv[1],"tier":sys.argv[2],"seed":int(os.environ.get("VERIF_SEED","0") or 0),"level":"model_checking",
 "coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[],"exhaustive":False,"notes":[sys.argv[4]]},
 "assumptions":["the harness could not be built on this tree"],"wall_s":0,"violations":0},open(sys.argv[3],"w"),indent=1)
PY
  echo "$prop: NO ANSWER: $1"
  exit 3
}
# plain: the original code, nothing rewritten; full: every synchronisation and memory access controlled
case $prop in S01|S02|S03|S04|F01|F02|M01) modes="none full" ;; *) modes="full sync" ;; esac
( cd "$here/tools/instr" && go build -o "$work/instr" . ) >"$work/log" 2>&1 || { cat "$work/log"; fail "the instrumenter does not build"; }
# built as Go 1.20 at least: the hooks on maps with interface keys need it; nothing else differs from 1.18
mkdir -p "$work/mod" && cp "$repo/go.mod" "$repo/go.sum" "$work/mod/" 2>/dev/null &&
  sed -i -E 's/^go 1\.(1[0-9]|[0-9])(\.[0-9]+)?[[:space:]]*$/go 1.20/' "$work/mod/go.mod" && export GOFLAGS="$GOFLAGS -modfile=$work/mod/go.mod"
ok=
for m in $modes; do
  mkdir -p "$work/$m"
  if "$work/instr" -repo "$repo" -verif "$here" -mode "$m" -out "$work/$m" >"$work/log" 2>&1 &&
     ( cd "$repo" && go build -overlay "$work/$m/overlay.json" -o "$work/h" ./zzverif/harness ) >>"$work/log" 2>&1; then
    ok=$m; break
  fi
  head -c 3000 "$work/log"
  note="instrumentation mode $m did not build; "
done
[ -n "$ok" ] || fail "the harness does not build on this tree: $(head -c 600 "$work/log")"
export TMPDIR=$work
"$work/h" -verif "$here" -prop "$prop" -tier "$tier" -note "$note" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || { fail "the harness ended with status $rc"; }
exit $rc
