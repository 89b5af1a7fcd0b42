#!/bin/bash
# tools/mut.sh SLOT PATCH|revert:HASH [ID...]: dev tool. Applies a patch to a scratch copy of
# /repo (/tmp/mut.SLOT), builds the harness against it and runs the quick checks ID....
# Prints one line per check: CAUGHT / missed. CASES, SEED in the environment.
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/mut.$1; P=$2; shift 2
if [ ! -d $S/repo ]; then
  mkdir -p $S && git clone -q ${BASE:-/repo} $S/repo || exit 1
  mkdir -p $S/repo/build-cmake; cp -a /repo/build-cmake/. $S/repo/build-cmake/ 2>/dev/null
fi
cd $S/repo && git checkout -q -- . && git fetch -q ${BASE:-/repo} HEAD && git reset -q --hard FETCH_HEAD || exit 1
case $P in
  revert:*) git fetch -q ${BASE:-/repo}; git diff ${P#revert:} ${P#revert:}~1 -- lib src | git apply -3 2>$S/apply.log || { echo "$P: cannot apply"; git reset -q --hard; exit 2; }; git reset -q;;
  *) git apply "$P" || { echo "$P: cannot apply"; exit 2; };;
esac
export CCACHE_DIR=$V/build/ccache CCACHE_NOHASHDIR=1
[ -f $S/build/build.ninja ] || cmake -S $V/cmake -B $S/build -G Ninja -DREPO=$S/repo -DCMAKE_CXX_COMPILER_LAUNCHER=ccache >$S/cmake.log 2>&1
ninja -C $S/build vh gingarun guirun >$S/build.log 2>&1 || { echo "$P: build failed"; tail -5 $S/build.log; git checkout -q -- .; exit 2; }
mkdir -p $S/v; cp $V/known-findings.txt $S/v/ 2>/dev/null
for id in "$@"; do
  out=$(cd $S/v && VERIF_DIR=$S/v timeout 900 $S/build/vh check $id --seed ${SEED:-1} --workers ${W:-8} ${CASES:+--cases $CASES} 2>&1)
  if grep -q "VIOLATION property=$id" <<<"$out"; then echo "$P $id CAUGHT: $(grep -m1 ': case\|: probe' <<<"$out" | cut -c1-150) [$(tail -1 <<<"$out" | grep -o '[0-9.]* s$')]"
    [ -n "$FIRST" ] && break
  else echo "$P $id missed: $(tail -1 <<<"$out")"; fi
done
git checkout -q -- .
