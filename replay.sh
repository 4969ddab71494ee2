#!/bin/bash
# usage: replay.sh FILE -- runs a recorded violation against /repo's working tree
f=$(realpath "$1"); cd "$(dirname "$0")"
export VERIF_DIR=$PWD
bin=.build/sim; if grep -q '^property P30' "$f"; then export SIM_DEV=1; bin=.build/dev/sim; fi
bash ./build.sh > .build.log 2>&1 || { cat .build.log >&2; exit 2; }
if grep -q '^property P\(07\|08\|25\|26\|28\|29\)' "$f"; then bash ./bindgen.sh >> .build.log 2>&1 || { cat .build.log >&2; exit 2; }; fi
exec $bin replay "$f"
