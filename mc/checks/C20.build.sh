#!/bin/bash
# the implementation under a controlled scheduler: compiled with -fsanitize=thread, linked with vft.c instead of the sanitizer
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; mkdir -p "$OUT"
RE=""; for s in memcpy memmove memset memcmp strlen strnlen strcmp strncmp strcpy strncpy memccpy localtime gmtime ctime asctime strtok sched_yield usleep nanosleep; do RE="$RE --redefine-sym $s=vf_$s"; done
for s in mutex_timedlock rwlock_rdlock rwlock_wrlock rwlock_tryrdlock rwlock_trywrlock rwlock_unlock spin_lock spin_trylock spin_unlock once cond_wait cond_signal cond_broadcast; do RE="$RE --redefine-sym pthread_$s=vf_$s"; done
export SUT_RE="$RE" SUT_FLAGS="-O1 -g -fsanitize=thread -fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector"
export SUT_EXTRA="$HERE/shim.c"
pids=()
bash "$HERE/buildlib.sh" "$OUT" & pids+=($!)
g++ -std=c++17 -O1 -c "$HERE/mc.cpp" -o "$OUT/mc.o" & pids+=($!)
g++ -std=c++17 -O1 -I"$HERE" -c "$HERE/checks/C20.cpp" -o "$OUT/chk.o" & pids+=($!)
gcc -std=gnu11 -O2 -c "$HERE/vft.c" -o "$OUT/vft.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || exit 1; done
g++ "$OUT/chk.o" "$OUT/mc.o" "$OUT/vft.o" "$OUT/libsut.a" -lm -lpthread -o "$OUT/check"
