#!/bin/bash
# check.sh <PROPERTY> [--replay FILE | --case N]: builds the harness from /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
mode=plain
case " $(cat "$here/harness/race.list" 2>/dev/null | tr '\n' ' ') " in *" $id "*) mode=race;; esac
if ! out=$("$here/harness/build.sh" $mode 2>&1); then
  echo "$out"; echo "the harness does not build against the working tree" >&2; exit 2
fi
args=()
export VERIF_HOME=$here
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case "$1" in
  --case) args=(-case "$2");;
  --replay) read -r c s t < <(python3 -c 'import json,sys; v=json.load(open(sys.argv[1])); print(v["case"], v["seed"], v["tier"])' "$2"); args=(-case "$c"); seed=$s; tier=$t;;
  --thorough) tier=thorough;;
esac
exec "${VERIF_BUILD:-$here/build}/vh-$mode" run -prop "$id" -tier "$tier" -seed "$seed" -verif "${VERIF_OUT:-$here}" "${args[@]}"
