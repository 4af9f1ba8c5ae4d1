#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
ID=$1; TIER=${2:-quick}
pk=vh
case $ID in X*) pk="vh zcli";; N*) pk="vh zcli vn";; esac
mkdir -p "$VERIF_DIR/work"
LOG=$VERIF_DIR/work/build_$ID.log
if ! "$VERIF_DIR/build.sh" $pk >"$LOG" 2>&1; then
  tail -n 40 "$LOG"
  echo "check.sh: the harness does not build against /repo's current tree" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/vh" run "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}"
