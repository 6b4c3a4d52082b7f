#!/bin/bash
# Rebuilds what the checks need from /repo's working tree, in /repo/_build (a folder git ignores in /repo).
# Same steps and flags as /opt/vp/build.sh, but: ccache lives in /verif/_work (a copy of /opt/vp/ccache, which stays
# untouched) and the Qt viewer module, which no check loads, is not rebuilt.
set -eo pipefail
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=$HERE/_work
B=/repo/_build
mkdir -p $W $B
exec 9>$W/build.lock
flock 9
if [ ! -d $W/ccache ]; then
  rm -rf $W/ccache.tmp
  cp -a /opt/vp/ccache $W/ccache.tmp
  mv $W/ccache.tmp $W/ccache
fi
mkdir -p $W/ccache/tmp
export CCACHE_DIR=$W/ccache CCACHE_MAXSIZE=8G CCACHE_TEMPDIR=$W/ccache/tmp CCACHE_SLOPPINESS=time_macros,include_file_mtime,include_file_ctime
unset PYTHONPATH
list=$(cd /repo && find core lib pkg gui py scripts/checks-and-tests/checks examples/test/performance -type f ! -name '*.pyc' | LC_ALL=C sort; sha256sum /opt/vp/configure.sh)
if [ ! -f $B/build.ninja ] || [ ! -f $B/.ok ] || [ "$list" != "$(cat $B/.ok)" ]; then
  rm -f $B/.ok
  rm -rf $B/chunks.old; mkdir $B/chunks.old
  mv $B/core.*.cpp $B/pkg.*.cpp $B/lib.*.cpp $B/chunks.old/ 2>/dev/null || true
  /opt/vp/configure.sh
  for f in $B/chunks.old/*.cpp; do
    if cmp -s "$f" "$B/$(basename "$f")"; then mv "$f" $B/; fi
  done
  printf '%s\n' "$list" > $B/.ok
fi
gl=$B/gui/lib/x86_64-linux-gnu/_GLViewer.so   # the install step wants it to exist; no check loads it, so a stale one will do
extra=; [ -f $gl ] || extra=_GLViewer
build() { ninja -j $1 -C $B yade boot WeightedAverage2d _utils _polyhedra_utils _packPredicates _packSpheres _packObb wrapper _customConverters $extra; }
build ${VERIF_JOBS:-7} || build 3  # a chunk takes up to 3 GB to compile: try again with fewer at once if memory ran out
rm -rf $B/inst
cmake --install $B > $B/install.log
/usr/bin/python3 /opt/vp/py3compat/convert.py $B/py3cache $B/inst/lib $B/inst/bin/yade $B/inst/bin/yade-batch
cd $B
OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH=/opt/vp/py3compat/modules:$B/inst/lib/x86_64-linux-gnu/yade/py /usr/bin/python3 -c 'import yade; assert yade.__file__.startswith("/repo/_build/inst/")'
echo "build ok"
