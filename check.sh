#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
"$ROOT/build.sh" "$ID" || exit 3
export VERIF_ROOT=$ROOT
exec "$ROOT/target/release/t2dmc" "$ID" "$TIER"
