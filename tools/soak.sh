#!/bin/bash
# soak.sh ID SEEDS [scale]: run one check over several seeds, print alarms only
cd "$(dirname "$0")/.."
for s in $(seq 2 $((1+$2))); do VERIF_SEED=$s ./check $1 quick --scale ${3:-3} > /tmp/soak.$1.$s 2>&1 || { echo "== seed $s"; cut -c1-1800 /tmp/soak.$1.$s | head -${4:-20}; break; }; done
echo "$1 soak done"
