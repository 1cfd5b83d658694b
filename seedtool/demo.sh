#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -g -D_GNU_SOURCE -DHAVE_PTHREADS -I"$R/src" -I"$R/_build/src" -I"$D" "$D/demo.c" -o "$T/demo" -L"$R/_build/src/onion" -lonion -lpthread -Wl,-rpath,"$R/_build/src/onion" || exit 0
cd "$T" && timeout 60 ./demo
