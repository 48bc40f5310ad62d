#!/bin/bash
# nothing needs to be prepared: every check builds what it needs; verify the toolchain
set -e
for t in gcc g++ flex bison objcopy ar python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../build" "$(dirname "$0")/../evidence" "$(dirname "$0")/../replays"
