#!/bin/bash
# builds the library sources of the current directory with the address sanitizer and runs the demonstration in a scratch folder
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRC=$(cat "$D/sources")
gcc -w -g -O1 -fsanitize=address -fno-omit-frame-pointer -D_GNU_SOURCE -DHAVE_PTHREADS -DNDEBUG -I"$R/src" -I"$R/_build/src" -I"$D" "$D/demo.c" $SRC -o "$T/demo" -lpthread -ldl || exit 0
cd "$T" && ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 60 ./demo
