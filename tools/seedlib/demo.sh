#!/bin/bash
# Run in the repository: builds demo.cpp with the library's current sources in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
FLAGS="$(sed -n 's|^// flags: ||p' "$D/demo.cpp")"
CXX="clang++ -w -std=c++17 -O0 -g1 -DEIGEN_MPL_ONLY -isystem /usr/include/eigen3 -I $R -I $D $FLAGS"
n=0
for f in $(find "$R/src" -name '*.cpp') "$D/demo.cpp"; do
    n=$((n + 1))
    $CXX -c "$f" -o o$n.o &
    [ $((n % 8)) -eq 0 ] && wait
done
wait
$CXX o*.o -lpthread -o demo || exit 2
timeout 100 ./demo
