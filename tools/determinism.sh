#!/bin/bash
# determinism.sh [N] [IDs...]: the first N scenarios of each check, twice - other number of workers, other hash seed,
# compiled code memoised or not - must give the same digests.
N=${1:-20}; shift
D=$(mktemp -d)
cd "$(dirname "$0")/.."
for p in ${*:-$(seq -f 'C%02.0f' 1 19)}; do
  DST_WORKERS=3 PYTHONHASHSEED=1 ./check $p --runs $N --digests $D/a > $D/log 2>&1
  DST_WORKERS=4 PYTHONHASHSEED=77 ./check $p --runs $N --digests $D/b > $D/log 2>&1
  cmp -s $D/a $D/b && echo "$p same" || { echo "$p DIFFERS"; diff $D/a $D/b | head -5; }
done
rm -rf "${D:?}"
