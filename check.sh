#!/bin/bash
# check.sh PROPERTY quick|thorough
# Builds the simulator from /repo's working tree and searches for violations of the property.
# Exit 0: none found; 1: VIOLATION line printed; 2: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
bash "$here/build.sh" || exit 2
mkdir -p "$here/evidence" "$here/replays"
scratch=$(mktemp -d "$here/sim/target/run-XXXXXX") || exit 2
cp "$here/sim/target/debug/vt6dst" "$scratch/vt6dst" || exit 2
"$scratch/vt6dst" check --prop "$prop" --tier "$tier" --seed "$seed" --known "$here/known-findings.txt" \
    --evidence "$here/evidence/$prop.json" --replays "$here/replays" --scratch "$scratch" ${VT6DST_ARGS:-}
code=$?
rm -rf "$scratch"
exit $code
