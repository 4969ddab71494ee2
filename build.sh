#!/bin/bash
# Builds the simulator from /repo's working tree into .build/ (ignored by git).
# usage: build.sh [repo] [builddir]
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}; out=${2:-$here/.build}
mkdir -p "$out/lib" "$out/obj"
exec 9>"$out/.lock"; flock 9
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,shift,pointer-overflow,nonnull-attribute,float-cast-overflow -fno-sanitize-recover=undefined"
# The library is compiled as it is shipped (NDEBUG), plus sanitizers.
INC="-I$repo/include -I$repo/src"
[ -f "$repo/config.h" ] && INC="$INC -I$repo"
CF="-std=gnu99 -D_GNU_SOURCE -DNDEBUG -O1 -g -fno-omit-frame-pointer -fno-strict-aliasing -w $SAN"
CXF="-std=c++20 -DNDEBUG -O1 -g -fno-omit-frame-pointer -Wall -Wno-unused-function -Wno-missing-field-initializers -fsanitize=address"
rm -rf "$out/lib"; mkdir -p "$out/lib"
pids=()
for f in "$repo"/src/core/*.c "$repo"/src/message/*.c "$repo"/src/util/*.c; do
  o=$(echo "${f#$repo/src/}" | tr / _); o="$out/lib/${o%.c}.o"
  ( gcc $CF $INC -c "$f" -o "$o" && objcopy --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc --redefine-sym free=sim_free "$o" ) & pids+=($!)
done
# SIM_DEV: a second simulator around the library with assertions, in $out/dev
if [ -n "$SIM_DEV" ]; then
  rm -rf "$out/dev"; mkdir -p "$out/dev/lib"
  for f in "$repo"/src/core/*.c "$repo"/src/message/*.c "$repo"/src/util/*.c; do
    o=$(echo "${f#$repo/src/}" | tr / _); o="$out/dev/lib/${o%.c}.o"
    ( gcc ${CF/-DNDEBUG /} $INC -c "$f" -o "$o" && objcopy --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc --redefine-sym free=sim_free "$o" ) & pids+=($!)
  done
fi
( gcc $CF $INC -I"$here/sim" -c "$here/sim/shim.c" -o "$out/obj/shim.o" ) & pids+=($!)
# The simulator itself is rebuilt when it or a public header changed.
key=$(cat "$here"/sim/*.cpp "$here"/sim/*.hpp "$here"/sim/*.h "$here/build.sh" $(find "$repo/include" -name '*.h' | sort) | sha256sum | cut -c1-32)
if [ "$(cat "$out/obj/key" 2>/dev/null)" != "$key" ]; then
  rm -f "$out/obj/key"
  for f in "$here"/sim/*.cpp; do
    ( g++ $CXF -I"$repo/include" -I"$here/sim" -c "$f" -o "$out/obj/$(basename "${f%.cpp}").o" ) & pids+=($!)
  done
fi
for p in "${pids[@]}"; do wait "$p"; done
echo "$key" > "$out/obj/key"
g++ -fsanitize=address,undefined -rdynamic "$out"/obj/*.o "$out"/lib/*.o -ldl -o "$out/sim.tmp"
mv "$out/sim.tmp" "$out/sim"
if [ -n "$SIM_DEV" ]; then g++ -fsanitize=address,undefined -rdynamic "$out"/obj/*.o "$out"/dev/lib/*.o -ldl -o "$out/dev/sim"; fi
