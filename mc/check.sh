#!/bin/bash
# check.sh ID [--replay FILE | --suite NAME | --list ...]
# Builds the check of property ID from /repo's working tree and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$(cd "$HERE/.." && pwd)
export TZ=UTC LC_ALL=C
id=$1; shift
B=$VERIF_ROOT/build/$id.$$
mkdir -p "$B"
trap 'rm -rf "$VERIF_ROOT/build/$id.$$"' EXIT
bash "$HERE/build.sh" "$id" "$B" || { echo "cannot build the check of $id" >&2; exit 2; }
"$B/check" "$@"
