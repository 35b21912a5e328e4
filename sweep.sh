#!/bin/bash
# sweep.sh RUNS [C..]: development sweep over properties, all classes
n=$1; shift; ps=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}
for c in $ps; do SIM_ALL=1 SIM_RUNS=$n SIM_MIN=0 SIM_BUDGET=${SIM_BUDGET:-600} SIM_VERIF=/tmp/sv timeout 900 ${SIMRUN:-/verif/build/simrun} check $c quick 2>&1 | grep -v "^scenario" > /tmp/o.$c; grep -E "runs in|warning" /tmp/o.$c; grep -hE "^(fail|other) run" /tmp/o.$c | sed -E 's/^(fail|other) run ([0-9]+) (seed [0-9]+ )?([a-zA-Z_]+(:[a-zA-Z0-9_-]+)?):.*/\4 \2/' | awk '{n[$1]++; e[$1]=e[$1]" "$2} END{for(k in n) print "   ",n[k],k,substr(e[k],1,60)}'; done
