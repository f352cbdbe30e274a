#!/bin/bash
# Builds the simulator once, so that a broken toolchain shows up before any check.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
mkdir -p evidence replays build
bash sim/build.sh
SIM_OPT=0 bash sim/build.sh
