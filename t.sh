#!/bin/bash
# t.sh "C01 C02" "1 2 3" : short output
for s in ${2:-1}; do for p in $1; do VERIF_SEED=$s python3 /verif/run.py $p | cut -c1-${W:-700} | head -${L:-14}; done; done
