#!/bin/bash
# builds /verif/build/mishape from /verif/engine3 (only when sources are newer)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
L=/usr/lib/llvm-18
exec 9>"$B/.lock3"; flock 9
need=0; [ -x "$B/mishape" ] || need=1
for f in "$D"/*.cpp "$D"/*.hpp; do [ "$f" -nt "$B/mishape" ] && need=1; done
[ $need = 0 ] && exit 0
mkdir -p "$B/o3"; pids=()
for f in "$D"/*.cpp; do o=$B/o3/$(basename "$f" .cpp).o
  g++ -O2 -std=c++17 -fno-rtti -fPIC -I$L/include -I"$D" -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$f" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$B/mishape.tmp" "$B"/o3/*.o -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$B/mishape.tmp" "$B/mishape"
