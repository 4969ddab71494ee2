#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
export VERIF_DIR=$PWD
if [ "$1" = P30 ]; then export SIM_DEV=1; fi
bash ./build.sh > .build.log 2>&1 || { mkdir -p .build; cat .build.log >&2; echo "build failed" >&2; exit 2; }
# the generator, and its bindings; without them the other properties still have their other runs
case $1 in
  P28) bash ./bindgen.sh >> .build.log 2>&1 || { cat .build.log >&2; echo "building the generator failed" >&2; exit 2; } ;;
  P07|P08|P25|P26|P29) bash ./bindgen.sh >> .build.log 2>&1 || echo "note: the generator does not build, no runs on generated bindings" ;;
esac
bin=.build/sim; if [ "$1" = P30 ]; then bin=.build/dev/sim; fi
exec $bin check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
