#!/bin/bash
# run.sh <property> [options]: builds from /repo's working tree and runs one check.
set -uo pipefail
V=$(cd "$(dirname "$0")" && pwd)
export VC_VERIF=$V VC_BUILD=${VC_BUILD:-$V/build}
BIN=$("$V/build.sh") || { echo "build failed" >&2; exit 3; }
export VC_BIN=$BIN LOCPATH=$VC_BUILD/locale LC_ALL=C
unset ASAN_OPTIONS UBSAN_OPTIONS TSAN_OPTIONS
case "$1" in
    C25) exec "$BIN/vcthr" "$@";;
    C22) exec "$BIN/vcshim" "$@";;
    replay) if grep -q '^property=C25' "$2"; then exec "$BIN/vcthr" "$@"; fi; if grep -q '^property=C22' "$2"; then exec "$BIN/vcshim" "$@"; fi; exec "$BIN/vc" "$@";;
    *) exec "$BIN/vc" "$@";;
esac
