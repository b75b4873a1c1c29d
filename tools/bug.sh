#!/bin/bash
# bug.sh <id>: checks seeded/<id>: applies, builds, passes the tests, and its demo tells the difference. Then runs the checks named by $CHECKS (default: its property).
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; s=$here/seeded/$id
d=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3 GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
cp -a /repo "$d/repo"; mkdir "$d/demo"; cp -a "$s"/. "$d/demo"; rm -f "$d/demo"/*.diff "$d/demo/meta.json"
cd "$d/repo" || exit 1
bash "$d/demo/demo.sh" > "$d/o1" 2>&1; r1=$?
git apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 ./... > "$d/t" 2>&1 && t=pass || t=FAIL
bash "$d/demo/demo.sh" > "$d/o2" 2>&1; r2=$?
echo "$id: tests=$t demo clean=$r1 patched=$r2"
[ $r1 != 0 ] && tail -5 "$d/o1"; [ $r2 = 0 ] && tail -5 "$d/o2"
[ $t = FAIL ] && grep -E "FAIL|---" "$d/t" | head
p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
"$here/tools/against.sh" "$s/patch.diff" ${CHECKS:-$p} | cut -c1-220
