#!/bin/bash
# fa.sh DIFF CHECK...: behaviour-preserving tree; report non-quiet checks
P=$1; shift; W=$(mktemp -d ${TMPDIR:-/tmp}/fa-XXXX); git -C /repo archive HEAD | tar -x -C $W; (cd $W && git apply $P) || exit 1
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}; do
 VERIF_REPO=$W timeout 900 python3 /verif/check.py $c > $W/$c.log 2>&1; r=$?; echo "$(basename $P) $c rc=$r"; [ $r = 0 ] || { grep -m1 FAIL $W/$c.log | cut -c1-700; tail -2 $W/$c.log | cut -c1-500; }; done; rm -rf $W
