#!/bin/bash
# buildlib.sh OUTDIR [extra cflags]: compiles every source of /repo (working tree)
# into OUTDIR/libsut.a with the interposed symbols of vf.h.
set -e
OUT=$1; shift
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
CCX=${SUT_CC:-gcc}
FL=${SUT_FLAGS:--O1 -g -fsanitize=address -fno-omit-frame-pointer}
mkdir -p "$OUT/gen" "$OUT/obj"
for l in $(find "$REPO/src" -name '*.l'); do
	b=$(basename "$l" .l); flex --header-file="$OUT/gen/$b.yy.h" -o "$OUT/gen/$b.yy.c" "$l"
done
for y in $(find "$REPO/src" -name '*.y'); do
	b=$(basename "$y" .y); bison -d -o "$OUT/gen/$b.tab.c" "$y" 2>/dev/null
done
RE=""
for s in malloc calloc realloc reallocarray strdup strndup asprintf vasprintf free regcomp regfree exit abort; do
	RE="$RE --redefine-sym $s=vf_$s"
done
for s in lock trylock unlock; do RE="$RE --redefine-sym pthread_mutex_$s=vf_mutex_$s"; done
RE="$RE --redefine-sym main=sut_main ${SUT_RE:-}"
export CCX FL RE OUT REPO
one() {
	src=$1
	o=$OUT/obj/$(echo "${src#/}" | tr '/' '_').o
	$CCX -std=gnu11 $FL -w -fPIC -I"$REPO/include" -I"$OUT/gen" -I"$(dirname "$src")" "$@" -c -o "$o" 2>"$o.log" || { cat "$o.log" >&2; exit 1; }
	objcopy $RE "$o"
}
export -f one
{ find "$REPO/src" -name '*.c'; ls "$OUT"/gen/*.c; for x in ${SUT_EXTRA:-}; do echo "$x"; done; } | sort | xargs -P "${JOBS:-8}" -I{} bash -c 'one {}'
rm -f "$OUT/libsut.a"
ar rcs "$OUT/libsut.a" "$OUT"/obj/*.o
