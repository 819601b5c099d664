#!/bin/bash
# replay.sh FILE: builds the simulator from /repo's working tree and repeats the run in the replay file.
# Exit 1 if the violation happens again, 0 if it does not.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
bash "$here/build.sh" || exit 2
scratch=$(mktemp -d "$here/sim/target/run-XXXXXX") || exit 2
cp "$here/sim/target/debug/vt6dst" "$scratch/vt6dst" || exit 2
"$scratch/vt6dst" replay "$file" --scratch "$scratch"
code=$?
rm -rf "$scratch"
exit $code
