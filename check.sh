#!/bin/bash
# check.sh PROPERTY quick|thorough : exit 0 held, 1 violated (VIOLATION line), anything else is an error
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
P=$1; T=${2:-${VERIF_TIER:-quick}}
case "$T" in thorough) RUNS=3000000; CAP=600;; *) T=quick; RUNS=48000; CAP=240;; esac
B=$(bash sim/build.sh) || { echo "ERROR: the simulator does not build" ; exit 3; }
U=$(SIM_OPT=0 bash sim/build.sh 2>/dev/null) || U= # code that only compiles optimised is searched optimised
mkdir -p evidence replays
# First the library as written, before a compiler merges calls or drops reads: other seeds, fewer runs.
UR=$(( ${SIM_RUNS:-$RUNS} / 16 )); US=$(( ${VERIF_SEED:-1} + 5000 ))
N=0; if [ -n "$U" ]; then
"$U" check "$P" "$T" --seed "$US" --runs "$UR" --cap $(( ${SIM_CAP:-$CAP} / 4 )) \
  --evidence "evidence/$P.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt" --workers "$(nproc)"
[ $? != 1 ] || exit 1
N=$(grep -o '"evaluations": [0-9]*' "evidence/$P.json" | head -1 | grep -o '[0-9]*$'); fi
exec "$B" check "$P" "$T" --seed "${VERIF_SEED:-1}" --runs "${SIM_RUNS:-$RUNS}" --cap "${SIM_CAP:-$CAP}" \
  --evidence "evidence/$P.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt" --workers "$(nproc)" --unoptimised "${N:-0}"
