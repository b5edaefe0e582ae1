#!/bin/bash
# tools/tryseed.sh [-c] NAME...: apply each planted change to a scratch copy of /repo,
# build, run the demo and the property's quick check; with -t also the stable tests.
T=0; [ "$1" = -t ] && { T=1; shift; }
S=/tmp/seedcopy-$$
rm -rf "$S"; cp -a /repo "$S" || exit 1; rm -rf "$S/_skbuild"
trap 'rm -rf "$S"' EXIT
export PATH=/opt/venv/bin:$PATH PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export CMAKE_C_COMPILER_LAUNCHER=ccache CCACHE_DIR=/opt/vp/ccache CCACHE_NOHASHDIR=1
for n in "$@"; do
  d=/verif/seeded/$n
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd "$S"; git checkout -q -- . 
  cext=$(grep -cE '^\+\+\+ .*\.(c|h|pyx|pxd)$' $d/patch.diff)
  (bash $d/demo.sh >/tmp/seed-$n.demo0 2>&1); r0=$?
  git apply $d/patch.diff || { echo "$n: DOES NOT APPLY"; continue; }
  if [ $cext -gt 0 ]; then (python setup.py build_ext --inplace >/tmp/seed-$n.build 2>&1) || echo "$n BUILD FAILED"; fi
  (bash $d/demo.sh >/tmp/seed-$n.demo1 2>&1); r1=$?
  t=-
  if [ $T = 1 ]; then
    t=$(python3 /verif/tools/stabletests.py "$S" /tmp/seed-$n.tests)
  fi
  if [ -f /verif/checks/${prop,,}.py ]; then
   (cd /verif; VERIF_REPO=$S VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $prop >/tmp/seed-$n.check 2>&1); c=$?
  else c=none; fi
  echo "$n ($prop): demo clean=$r0 patched=$r1 tests=$t check=$c $(grep -c ^VIOLATION /tmp/seed-$n.check)"
  git checkout -q -- .
  if [ $cext -gt 0 ]; then (python setup.py build_ext --inplace >/dev/null 2>&1); fi
done
