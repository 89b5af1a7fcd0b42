#!/bin/bash
# tools/seedtest.sh ID...: dev tool. In a scratch copy (/tmp/seed), checks that each seeded
# change applies, changes original lines, builds, passes the tests, that its demo tells.
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seed; R=$S/repo
if [ ! -d $R ]; then
  mkdir -p $S && git clone -q ${BASE:-/repo} $R && cp -a /opt/vp/cmake $S/cmake
  sed -i "s,set(REPO \"/repo\"),set(REPO \"$R\")," $S/cmake/CMakeLists.txt
  cmake -S $S/cmake -B $R/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc >$S/cmake.log 2>&1
fi
cd $R && git checkout -q -- . && git fetch -q ${BASE:-/repo} HEAD && git reset -q --hard FETCH_HEAD || exit 1
build () { ninja -C $R/_build -k 0 >$S/build.log 2>&1; }
build || { echo "clean build failed"; exit 1; }
for id in "$@"; do
  D=$V/seeded/$id
  bash $D/demo.sh >$S/demo.clean 2>&1; c=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  # removed lines must be original
  mine=$(python3 - "$D/patch.diff" <<'P'
import re,subprocess,sys
bad=[];f=None
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None or l.startswith('+') or l.startswith('diff'): continue
    if l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout
        if not b.startswith('^') and not b.startswith('af963e8'): bad.append(b.strip())
        n+=1
    elif l.startswith(' '): n+=1
print(len(bad)); [print('   mine:',x,file=sys.stderr) for x in bad]
P
)
  if build; then b=ok; else b=FAILED; fi
  rm -rf $R/_build/tmp; mkdir -p $R/_build/tmp
  t=$(cd $R/_build && TMPDIR=$R/_build/tmp G_MESSAGES_DEBUG= NO_AT_BRIDGE=1 ctest -j4 --timeout 100 2>&1 | grep "tests passed")
  bash $D/demo.sh >$S/demo.patched 2>&1; p=$?
  echo "$id: build $b; $t; demo clean=$c patched=$p; own lines changed: $mine"
  [ $c = 0 ] || cat $S/demo.clean | head -5; tail -2 $S/demo.patched | cut -c1-200
  git checkout -q -- .
done
build
