#!/bin/bash
# check.sh PROPERTY [tier]: rebuilds the simulator from /repo's working tree and searches for a violation.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
B=${DST_BUILD:-$PWD/build}
mkdir -p evidence replays
./build.sh || exit 2
exec "$B/dst" "$prop" --tier "$tier" --seed "$seed" --jobs "$(nproc)" --evidence "evidence/$prop.json" \
     --replay-dir replays --known known_findings.txt ${DST_ARGS}
