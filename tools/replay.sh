#!/bin/bash
# replay.sh <file>: rebuild, and run exactly the recorded execution; prints its trace.
. "$(dirname "$0")/env.sh"
id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$1") || exit 2
bin=$(awk -v id="$id" '$1==id{print $2}' "$SIM_VERIF/tools/checks.txt")
python3 "$SIM_VERIF/tools/mkws.py" && cd "$SIM_WS" && cargo build --offline -q -p "$bin" || exit 2
exec "$CARGO_TARGET_DIR/debug/$bin" replay "$1"
