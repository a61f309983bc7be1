#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
E="$R/_build/src/onion"
L="$E/libonion_static.a"; for x in $(find "$R/_build/src/onion/handlers" "$R/_build/src/onion/extras" -name '*_static.a' 2>/dev/null); do L="$x $L"; done
g++ -std=c++17 -O0 -g -w @FLAGS@ -DHAVE_GNUTLS -DHAVE_PTHREADS -D_GNU_SOURCE -I"$R/src" -I"$R/_build/src" -I"$here" "$here/demo.cpp" -Wl,--start-group $L -Wl,--end-group \
  -lxml2 -lpam -lgcrypt -lgnutls -lsqlite3 -lhiredis -lsystemd -lpthread -lrt -ldl -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
