#!/bin/bash
# run in the repository after its build; exit 0: the property holds on this input
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
LL="$(grep -h 'LINK_LIBRARIES = lib/libmmg.a' "$R/_build/build.ninja" | head -1 | sed 's/.*LINK_LIBRARIES = lib\/libmmg.a//')"
g++ -std=c++17 -O1 -I"$R/_build/include" -I"$D" "$D/demo.cpp" -o "$T/demo" "$R/_build/lib/libmmg.a" $LL -lpthread || exit 98
cd "$T" && ulimit -c 0 && timeout 250 ./demo
