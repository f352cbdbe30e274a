#!/bin/bash
# Builds the simulator against the library sources in /repo's current working tree.
# Usage: build.sh   -> prints the path of the simulator binary.
# The build directory is keyed by the content of the library sources and of the simulator.
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${SIM_REPO:-/repo}
OPT=${SIM_OPT:-1}   # optimisation of the library: at 0 the compiler removes no repeated work
mkdir -p "$V/build"
exec 9>"$V/build/.lock"; flock 9
KEY=$( { echo "$OPT"; cd "$REPO" && cat $(ls src/*.c src/*.h | sort) && ls src/*.c src/*.h | sort; cd "$V/sim" && cat build.sh syms.txt *.cpp *.h; } | sha256sum | cut -c1-16)
B="$V/build/$KEY"
if [ -x "$B/sim" ]; then echo "$B/sim"; exit 0; fi
# keep only a few builds
ls -1dt "$V"/build/*/ 2>/dev/null | tail -n +6 | while read -r d; do case "$d" in "$V"/build/????????????????/) rm -rf "$d";; esac; done
rm -rf "$B.tmp"; mkdir -p "$B.tmp"; cd "$B.tmp"
LIBFLAGS="-std=gnu11 -O$OPT -g -fwrapv -fno-pic -fno-pie -fno-omit-frame-pointer -fsanitize=thread -femulated-tls -fno-common -fno-stack-protector -D_GNU_SOURCE -w -I$REPO/src"
pids=()
for f in "$REPO"/src/*.c; do
  clang $LIBFLAGS -c "$f" -o "lib_$(basename "${f%.c}").o" >"cc_$(basename "${f%.c}").log" 2>&1 & pids+=($!)
done
for f in "$V"/sim/*.cpp; do
  g=$(basename "${f%.cpp}")
  O="$V/build/.obj_$(cat "$V"/sim/*.h "$f" | sha256sum | cut -c1-16)_$g.o"
  if [ -f "$O" ]; then cp "$O" "sim_$g.o"; else
  ( clang++ -std=c++17 -O2 -g -fno-pie -fno-pic -I"$V/sim" -I"$REPO/src" -c "$f" -o "sim_$g.o" && cp "sim_$g.o" "$O" ) >"cxx_$g.log" 2>&1 & pids+=($!); fi
done
echo "extern const int lib_opt; const int lib_opt = $OPT;" > variant.cpp; clang++ -c variant.cpp -o sim_variant.o
ok=1; for p in "${pids[@]}"; do wait "$p" || ok=0; done
if [ $ok = 0 ]; then cat *.log >&2; echo "sim: build failed" >&2; exit 3; fi
ld -r -o lib_all.o lib_*.o
{ for s in $(cat "$V/sim/syms.txt"); do echo "$s sim_$s"; done; echo "time sim_time_"; } > redefine.txt
nm -g --defined-only lib_all.o | awk '{print $3}' > defined.txt
# never redirect a name the library itself defines
grep -v -w -F -f defined.txt redefine.txt > redefine2.txt || true
objcopy --redefine-syms=redefine2.txt --rename-section .data=simdata --rename-section .bss=simbss lib_all.o lib_sim.o
nm -u lib_sim.o | awk '{print $2}' | sort -u > undefined.txt
clang++ -no-pie -o sim sim_*.o lib_sim.o -lm -lpthread
cd "$V/build"; mv "$B.tmp" "$B"
find "$V/build" -maxdepth 1 -name '.obj_*' -mmin +600 -delete 2>/dev/null || true
echo "$B/sim"
