#!/bin/bash
# run.sh PROPERTY [thorough]: builds the simulator from /repo's working tree, then checks one
# property.
cd "$(dirname "$0")" || exit 2
export SIM_VERIF=$PWD
if [ "$2" = thorough ]; then export VERIF_TIER=thorough; fi
cov= bin=sim/target/debug/sim
if [ "$1" = S01 ]; then cov=cov bin=sim/target/cov/x86_64-unknown-linux-gnu/debug/sim; fi
if ! ./sim/build.sh $cov -q 2>/tmp/simbuild.$$; then cat /tmp/simbuild.$$; rm -f /tmp/simbuild.$$; echo "cannot build the simulator"; exit 2; fi
rm -f /tmp/simbuild.$$
exec ./$bin check "$1"
