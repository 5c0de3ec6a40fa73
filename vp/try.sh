#!/bin/sh
# development: try.sh HARNESS SECONDS NLINES : run cbmc directly and show the outcome
cd /verif; T=$(mktemp -d /tmp/vp_try_XXXX); export TMPDIR=$T
(VP_KEEP=1 VP_CMDONLY=1 timeout 120 python3 vp/runner.py one $1 >$T/try.out 2>&1)
D=$(ls -d $T/vp_one_*/$1|head -1); cd $D || exit; [ -f cmd.sh ] || tail -20 $T/try.out
sed -i 's/^cbmc/exec cbmc/' cmd.sh
timeout -k 5 ${2:-300} sh ./cmd.sh > out.txt 2>&1
echo "== $1"; grep -h "FAILURE" out.txt | cut -c1-220| head -${3:-20}; tail -2 out.txt| cut -c1-200; grep -h "size of program\|VCC\|Symex" out.txt | cut -c1-200; grep -h "Runtime Solver" out.txt | awk '{s+=$3} END{print "solver", s}'
rm -rf "$T"
