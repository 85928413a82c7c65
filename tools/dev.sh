#!/bin/bash
# build one simulator binary: dev.sh simbase
. /verif/tools/env.sh
python3 /verif/tools/mkws.py && cd $SIM_WS && cargo build --offline -p $1 2>&1 | grep -E "^(error|warning: unused)|^  *-->|^   \|" | head -${2:-60}
