#!/bin/bash
# matrix.sh [IDs...]: every planted bug against its own check, seeds 1-3
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do SEEDS="${SEEDS:-1 2 3}" bash tools/runseed.sh "$i"; done
