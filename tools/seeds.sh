#!/bin/sh
# tools/seeds.sh PID SCALE SEED...: the quick check with other seeds and more cases
p=$1; sc=$2; shift 2
for s in "$@"; do VERIF_SEED=$s python3 run.py $p --scale $sc 2>&1 | tail -25; done
