#!/bin/bash
# developer helper: run checks and list the distinct signatures of what broke
for i in "$@"; do
VERIF_MAX_BROKEN=${MB:-200} timeout ${T:-300} /verif/target/release/vharness check $i --seed ${SEED:-1} --tier ${TIER:-quick} --out /verif/work/r.json >/verif/work/r.log 2>&1; echo "$i exit $?"
python3 /verif/tools/show.py /verif/work/r.json
done
