#!/bin/bash
# Same seeds, twice, with different numbers of workers and hash seeds: the digests of all event histories must be equal.
cd "$(dirname "$0")/.." || exit 3
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bad=0
for i in ${1:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17}; do
    n=${RUNS:-60}
    PYTHONHASHSEED=1 ./check.sh C$i --runs $n --workers 8 --digests $d/a > /dev/null
    PYTHONHASHSEED=2 ./check.sh C$i --runs $n --workers 3 --digests $d/b > /dev/null
    if cmp -s $d/a $d/b && [ -s $d/a ]; then echo "C$i: $(wc -l < $d/a) runs identical"; else echo "C$i: DIFFERENT"; bad=1; diff $d/a $d/b | head -5; fi
done
exit $bad
