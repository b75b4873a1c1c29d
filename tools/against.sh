#!/bin/bash
# against.sh <patch file | git rev> PROP...: runs checks against a scratch copy of /repo with the patch applied (or at a revision).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
what=$1; shift
d=$(mktemp -d /tmp/against.XXXXXX)
trap 'rm -rf "$d"' EXIT
if [ -f "$what" ]; then
  git -C /repo archive HEAD | (mkdir "$d/repo"; tar x -C "$d/repo")
  (cd "$d/repo" && git init -q . && git apply "$what")
else
  git -C /repo archive "$what" | (mkdir "$d/repo"; tar x -C "$d/repo")
fi
mkdir -p "$d/out"
cp "$here/known_findings.jsonl" "$d/out/" 2>/dev/null || true
for p in "$@"; do
  VERIF_REPO="$d/repo" VERIF_BUILD="$d/build" VERIF_OUT="$d/out" "$here/check.sh" "$p" > "$d/log" 2>&1 && rc=0 || rc=$?
  echo "== $p rc=$rc"
  [ -n "$V" ] && cut -c1-${W:-1500} "$d/log" | head -${N:-40} || grep -aE "^\[|VIOLATION|harness|KNOWN|cannot|error" "$d/log" | cut -c1-300 | head -8
done
exit 0
