#!/bin/bash
# check.sh PROPERTY [quick|thorough]
VERIF=$(cd "$(dirname "$0")" && pwd)
dir=$("$VERIF/build.sh") || exit 2
exec "$dir/sim-checked" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" \
    "$dir/sim-checked" "$dir/sim-shipped" "$VERIF"
