#!/bin/bash
# check.sh PROPERTY TIER: build the simulator from /repo's working tree and run the check.
cd /verif || exit 3
sim/build.sh || { echo "build of the simulator failed" >&2; exit 3; }
exec target-fast/release/lokky-sim check "$1" "${2:-${VERIF_TIER:-quick}}"
