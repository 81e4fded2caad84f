#!/bin/bash
# build.sh TARGET OUTDIR [FLAGS...]: compiles the harness TARGET (h_*.cpp) with /repo's current sources.
# Everything is rebuilt whenever any byte of the sources, the harness or the flags differs (content hash, never
# time stamps).  Object files go to OUTDIR; nothing is written to /repo.
set -e -o pipefail
here=$(cd "$(dirname "$0")" && pwd)
target=$1; base=$2; shift 2
repo=${VERIF_REPO:-/repo}
[ -f "$here/$target.cpp" ] || { echo "unknown target $target" >&2; exit 2; }
hash=$( (echo "$target $repo $here $*"; cd "$repo/src" && find . -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here" && sha256sum build.sh shim.h "$target".cpp 2>/dev/null || true) | sha256sum | cut -c1-16)
out="$base/$target.d"
if [ -f "$out/hash" ] && [ "$(cat "$out/hash")" = "$hash" ] && [ -x "$base/$target" ]; then exit 0; fi
rm -rf -- "$out" "$base/$target"
mkdir -p "$out"
# every source of the program except its entry point; broker_core needs a newer-spdlog shim (only h_e2e links it)
full=$(head -1 "$here/$target.cpp" | grep -c 'FULL PROGRAM' || true)
skip="! -name broker_core.cpp"; inc=""
if [ "$full" = 1 ]; then skip=""; inc="-include $here/shim.h"; fi
srcs=$(cd "$repo/src" && find . -name '*.cpp' ! -name main.cpp $skip | sed 's|^\./||; s|\.cpp$||' | sort)
if head -1 "$here/$target.cpp" | grep -q STANDALONE; then srcs=""; fi
CXXFLAGS="-std=c++17 -O1 -w -DFMT_HEADER_ONLY -I$repo/src $inc $*"
mk="$out/Makefile"
echo "all: $base/$target" > "$mk"
objs=""
rule() { echo -e "$1: $2\n\tg++ $CXXFLAGS -c -o $1 $2" >> "$mk"; objs="$objs $1"; }
for s in $srcs; do rule "$out/$(echo $s | tr / _).o" "$repo/src/$s.cpp"; done
rule "$out/$target.o" "$here/$target.cpp"
echo -e "$base/$target: $objs\n\tg++ $CXXFLAGS -o \$@ $objs -lyaml-cpp -lzmq -lcurl -lboost_system -lboost_filesystem -lboost_program_options -lpthread -ldl" >> "$mk"
make -s -j8 -f "$mk"
rm -f -- "$out"/*.o
echo "$hash" > "$out/hash"
