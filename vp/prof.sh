#!/bin/sh
# profile: where the symbolic execution steps of a harness come from
cd /verif/vp; rm -rf /tmp/vp_one_*
(VP_KEEP=1 VP_CMDONLY=1 timeout 60 python3 runner.py one $1 >/dev/null 2>&1)
D=$(ls -d /tmp/vp_one_*/$1|head -1); cd $D
sh ./cmd.sh --program-only 2>/dev/null > po.txt
wc po.txt
grep -o "^// [0-9]* file [^ ]* line [0-9]* function [a-z_A-Z0-9]*" po.txt | awk '{print $NF, $6}' | sort | uniq -c | sort -rn | head -${2:-25}
