#!/bin/bash
# Builds the harness from /repo's current working tree. usage: build.sh [vh] [zcli]
# Cargo decides freshness by modification times; so as not to depend on clocks, a crate of /repo whose
# content changed since the last build has its fingerprint removed first.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$CARGO_TARGET_DIR/srchash"
exec 9>"$CARGO_TARGET_DIR/.build.lock"
flock 9
for d in /repo/zokrates_*/; do
  d=${d%/}; n=$(basename "$d")
  h=$(find "$d" -type f -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$h" != "$(cat "$CARGO_TARGET_DIR/srchash/$n" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/"$n"-*
    [ "$n" = zokrates_cli ] && rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/zcli-*
    changed="$changed $n"
  fi
  eval "hash_$n=\$h"
done
ok=1
for p in "${@:-vh}"; do
  (cd "$VERIF_DIR/harness" && cargo build --offline -p "$p") || { ok=0; break; }
done
if [ $ok = 1 ]; then
  for n in $changed; do v="hash_$n"; echo "${!v}" > "$CARGO_TARGET_DIR/srchash/$n"; done
fi
[ $ok = 1 ]
