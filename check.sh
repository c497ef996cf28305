#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo and run the simulated search for one property.
cd "$(dirname "$0")" || exit 2
if [ "$1" = X03 ]; then exec python3 tools/x03.py check "${2:-${VERIF_TIER:-quick}}"; fi
./build.sh || exit 2
export PAKESIM_ROOT="$PWD"
exec ./sim/target/release/pakesim check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
