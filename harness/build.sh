#!/bin/bash
# Builds the harness against /repo's current working tree through an overlay:
#   build.sh plain|race   ->  /verif/build/vh-plain, /verif/build/vh-race
set -e
here=$(cd "$(dirname "$0")" && pwd)
verif=$(dirname "$here")
mode=${1:-plain}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$verif/build}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
python3 - "$here/src" "$REPO" "$B/overlay.json" <<'PY'
import sys, os, json
src, repo, out = sys.argv[1:]
rep = {os.path.join(repo, "zz_verif", f): os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".go")}
json.dump({"Replace": rep}, open(out, "w"))
PY
cd "$REPO"
extra=()
[ "$mode" = race ] && extra=(-race)
go build "${extra[@]}" -buildvcs=false -tags verif -overlay "$B/overlay.json" -o "$B/vh-$mode" ./zz_verif
