#!/bin/bash
# Builds the code generator of /repo's working tree as a simulator component
# (bindgen) in .build/bind/, where the bindings of the simulated schemas go too.
# usage: bindgen.sh [repo] [builddir]
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}; out=${2:-$here/.build}; b="$out/bind"
mkdir -p "$out"; exec 9>"$out/.bindlock"; flock 9
key=$(cat "$here"/gen/* "$here/bindgen.sh" "$here/sim/bind.h" "$here/sim/bind.hpp" "$here/sim/schema.hpp" $(find "$repo/include" "$repo/src/generator" "$repo/src/core" -name '*.h' -o -name '*.hh' -o -name '*.cc' | sort) | sha256sum | cut -c1-32)
[ "$(cat "$b/key" 2>/dev/null)" = "$key" ] && exit 0
rm -rf "$b"; mkdir -p "$b/obj"
CXF="-std=c++17 -O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,signed-integer-overflow -include $here/gen/compat.h -I$repo/src -I$repo/include"
[ -f "$repo/config.h" ] && CXF="$CXF -I$repo -DHAVE_CONFIG_H"
pids=()
for f in "$repo"/src/generator/*.cc "$here"/gen/bindgen.cc; do
  [ "$(basename "$f")" = protoc-gen-protobluff.cc ] && continue
  ( g++ $CXF -c "$f" -o "$b/obj/$(basename "${f%.cc}").o" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ -fsanitize=address,undefined "$b"/obj/*.o -lprotoc -lprotobuf -o "$b/bindgen"
rm -rf "$b/obj"
echo "$key" > "$b/key"
