#!/bin/bash
# build.sh ID OUT: OUT/check from checks/ID.cpp, the explorer and /repo's working tree
set -u
HERE=$(cd "$(dirname "$0")" && pwd); id=$1; OUT=$2
SAN="-fsanitize=address -fno-omit-frame-pointer -g"
export SUT_FLAGS SUT_CC
if [ -f "$HERE/checks/$id.build.sh" ]; then exec bash "$HERE/checks/$id.build.sh" "$OUT"; fi
pids=()
bash "$HERE/buildlib.sh" "$OUT" & pids+=($!)
g++ -std=c++17 -O1 -c "$HERE/mc.cpp" -o "$OUT/mc.o" & pids+=($!)
g++ -std=c++17 -O1 -I"$HERE" -c "$HERE/checks/$id.cpp" -o "$OUT/chk.o" & pids+=($!)
gcc -std=gnu11 -O1 $SAN -c "$HERE/vf.c" -o "$OUT/vf.o" & pids+=($!)
for f in shim shim_ds; do
gcc -std=gnu11 -O1 -w $SAN -I"${REPO:-/repo}/include" -c "$HERE/$f.c" -o "$OUT/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 1; done
g++ $SAN "$OUT/chk.o" "$OUT/mc.o" "$OUT/shim.o" "$OUT/shim_ds.o" "$OUT/vf.o" "$OUT/libsut.a" -lm -lpthread -o "$OUT/check"
