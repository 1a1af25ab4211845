#!/bin/bash
# builds /verif/build/miflow from /verif/engine (only when sources are newer)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
L=/usr/lib/llvm-18
exec 9>"$B/.lock"; flock 9
need=0; [ -x "$B/miflow" ] || need=1
for f in "$D"/*.cpp "$D"/*.hpp; do [ "$f" -nt "$B/miflow" ] && need=1; done
[ $need = 0 ] && exit 0
pids=()
for f in "$D"/*.cpp; do o=$B/$(basename "$f" .cpp).o
  g++ -O2 -std=c++17 -fno-rtti -fPIC -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$f" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$B/miflow.tmp" "$B"/*.o -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$B/miflow.tmp" "$B/miflow"
