#!/bin/bash
# d.sh TIME ENTRY SHARDS [variant] [tier]: dev.py with only the noteworthy lines and totals
T=$1; shift
T=$T timeout 1500 python3 /verif/dev.py "$@" > /tmp/$1.out 2>&1
grep -v "^[0-9]* [0-4]\.[0-9]s" /tmp/$1.out | grep -v '^build' | sed -E '/PROBLEM access/s/[0-9]+/N/g' | uniq | cut -c1-${W:-330} | head -${L:-12}
awk -v e=$1 '/^[0-9]+ [0-9.]+s/{n++; s+=$2; if($2+0>m)m=$2+0; for(i=1;i<=NF;i++) if($i=="ins") k+=$(i+1)} END{printf "%s: %d shards, %.1f s total, max %.1f, %.1f M instr\n", e, n, s, m, k/1e6}' /tmp/$1.out
grep -o "covers \[.*\]" /tmp/$1.out | tr -d "[]'," | sed 's/covers//' | sort | uniq -c | sort -rn | head -${C:-3}
