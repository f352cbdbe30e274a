#!/bin/bash
# replay.sh FILE : runs a recorded execution again; exit 1 when it still violates the property
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
O=$(grep -m1 -o "^# library -O[0-9]" "$1" | grep -o "[0-9]$")
B=$(SIM_OPT=${O:-1} bash sim/build.sh) || exit 3
exec "$B" replay "$1"
