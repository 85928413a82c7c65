#!/bin/bash
# Build everything from committed files and /repo's working tree.
. "$(dirname "$0")/env.sh"
set -e
python3 "$SIM_VERIF/tools/mkws.py"
cd "$SIM_WS"
cargo build --offline $(ls -d sim/sim{base,peer,gw,node}/ 2>/dev/null | xargs -n1 basename | sed 's/^/-p /')
