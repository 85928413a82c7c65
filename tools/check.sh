#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree, then run the property's check.
. "$(dirname "$0")/env.sh"
id=$1
bin=$(awk -v id="$id" '$1==id{print $2}' "$SIM_VERIF/tools/checks.txt")
[ -n "$bin" ] || { echo "no check for $id"; exit 2; }
exec 9>"$SIM_VERIF/.build.lock" && flock 9
python3 "$SIM_VERIF/tools/mkws.py" || exit 2
log=$(mktemp)
if ! (cd "$SIM_WS" && cargo build --offline -p "$bin") >"$log" 2>&1; then
  grep -E -A8 '^error' "$log" | head -60; tail -5 "$log"; rm -f "$log"
  echo "ERROR: $bin does not build"; exit 2
fi
rm -f "$log"
exec 9>&-
export MALLOC_ARENA_MAX=1
exec "$CARGO_TARGET_DIR/debug/$bin" "$id"
