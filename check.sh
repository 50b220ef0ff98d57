#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator against /repo's working tree and runs the check
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
if ! ./build.sh >/tmp/verif-build.$$ 2>&1; then
    tail -50 /tmp/verif-build.$$
    rm -f /tmp/verif-build.$$
    echo "the simulator or the code under test does not build"
    exit 2
fi
rm -f /tmp/verif-build.$$
exec sim/target/release/sim check "$1" "${2:-${VERIF_TIER:-quick}}"
