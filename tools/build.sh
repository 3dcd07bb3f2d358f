#!/bin/bash
# Rebuilds everything the checks need from /repo's working tree, offline.
# Output goes to $OUT (default /verif/build), never into /repo.
set -e
export LC_ALL=C.UTF-8
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${DSIM_REPO:-/repo}
OUT=${DSIM_BUILD:-$VERIF/build}
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
unset CFLAGS CXXFLAGS LDFLAGS VERBOSE
# private copy of the sources, updated by content so that stale time stamps
# can never hide a change
mkdir -p "$OUT/src"
rsync -rlc --delete --chmod=u+rw --exclude=.git --exclude=/_build --exclude=/build "$REPO/" "$OUT/src/"
SRC=$OUT/src
make -s -C "$VERIF" -f tools/Makefile OUT="$OUT" REPO="$SRC" dsim >&2
if [ ! -f "$OUT/repo/build.ninja" ] || [ "$(cat "$OUT/repo/.src" 2>/dev/null)" != "$SRC" ]; then
  rm -rf "$OUT/repo"
  mkdir -p "$OUT/repo"
  CC=gcc CXX=g++ cmake -S "$SRC" -B "$OUT/repo" -G Ninja \
    -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g1 -DNDEBUG" \
    -DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm -DCLANG_ROOT=/usr/lib/llvm-20 \
    -DPYTHON_EXECUTABLE=/usr/bin/python3 \
    -DCMAKE_CXX_COMPILER_LAUNCHER="$VERIF/tools/inst.sh" \
    -DCMAKE_EXE_LINKER_FLAGS="-Wl,--no-as-needed $OUT/libdsim.so -Wl,-rpath,$OUT" \
    > "$OUT/cmake.log" 2>&1 || { cat "$OUT/cmake.log" >&2; exit 3; }
  echo "$SRC" > "$OUT/repo/.src"
fi
ninja -C "$OUT/repo" liboclgrind.so liboclgrind-rt.so oclgrind-kernel oclgrind-exe \
  include/oclgrind/opencl-c-1.2-64.pch include/oclgrind/opencl-c-2.0-64.pch \
  > "$OUT/ninja.log" 2>&1 || { tail -40 "$OUT/ninja.log" >&2; exit 3; }
mkdir -p "$OUT/lib"
ln -sfn ../repo/liboclgrind-rt.so "$OUT/lib/libOpenCL.so"
make -s -j8 -C "$VERIF" -f tools/Makefile OUT="$OUT" REPO="$SRC" all >&2
