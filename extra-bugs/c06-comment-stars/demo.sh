#!/bin/bash
# Run in /repo after the build: exit 0 if the library behaves, nonzero otherwise.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
S=_build/src/projectm-eval
gcc -w -std=gnu11 -g  -I$S/api -I$S -I_build/src -I"$d" "$d/demo.c" $(ls $S/*.c $S/api/*.c) -lm -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
