#!/bin/bash
# dbg.sh PROP ENTRY [symx options]: run one entry with slow queries dumped to /tmp/d
cd $(dirname $0)/..; P=$1; E=$2; shift 2
W=$(python3 check.py $P --only none --keep | sed -n 's/^work directory //p')
mkdir -p /tmp/d; find /tmp/d -name '*.smt2' -delete
BC=$(grep -l . $W/*.bc | head -1)
for b in $W/*.bc; do if llvm-nm-18 $b 2>/dev/null | grep -q " $E$"; then BC=$b; fi; done
SYMX_SLOW=${SLOW:-1} SYMX_DUMP=/tmp/d timeout ${TMO:-150} build/symx --entry=$E --out=/tmp/o.json --time=${TM:-60} --assert-budget=20 --branch-budget=5 "$@" $BC 2>&1 | tail -${TAIL:-12}
rm -rf $W
