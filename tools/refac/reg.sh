#!/bin/bash
# usage: reg.sh binary
. /tmp/env.sh
export SA=$1 NOTEST=1
SA_SPEC=all $SA | grep -v ^BAD | diff /tmp/all7.out - | head -5
(bash /verif/tools/plant/run.sh > /tmp/reg.seeds 2>&1) &
for w in w1 w2 w3 w4 w5 w6; do (KEEP=/tmp/refac/keep python3 /verif/tools/refac/refac.py /tmp/plant/$w.py > /tmp/$w.cur 2>&1) & done
wait
grep -c . /tmp/reg.seeds; grep -v -i "caught" /tmp/reg.seeds | head -20
for w in w1 w2 w3 w4 w5 w6; do diff <(sort /tmp/$w.new) <(sort /tmp/$w.cur) | cut -c1-200 | head -20; done
for r in r1 r2 r3 r4 r5 r6 r7 ${EXTRA}; do (KEEP=/tmp/refac/keep python3 /verif/tools/refac/refac.py /verif/tools/refac/$r.py > /tmp/$r.cur 2>&1) & done
wait
for r in r1 r2 r3 r4 r5 r6 r7 ${EXTRA}; do grep -v "quiet" /tmp/$r.cur | cut -c1-200; done
