#!/bin/bash
# mutrun.sh MUTANTS.jsonl OUT.jsonl SLOT START STRIDE WORKERS: runs the checks of each mutant's file against it in a
# namespace of its own until one reports a violation. Works on a clone of /verif given by VSRC (default /verif).
M=$(realpath "$1"); OUT=$(realpath "$2"); slot=$3; start=$4; stride=$5; workers=$6
S=/var/tmp/mut/$slot
mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
if [ ! -d $S/verif ]; then mkdir $S/verif; (cd ${VSRC:-/verif} && tar c --exclude=./seeded --exclude=./.git --exclude=./build .) | tar x -C $S/verif; [ -d /verif/build ] && cp -a /verif/build $S/verif/build; fi
cp "$(dirname "$0")/mutrun.py" $S/mutrun.py; cp "$M" $S/mutants.jsonl; touch $OUT; cp $OUT $S/out.jsonl
exec unshare -Urmnpf --propagation private --mount-proc bash -c "ip link set lo up; mount --bind $S/repo /repo; mount --bind $S/verif /verif; mount -t tmpfs none /tmp; exec python3 $S/mutrun.py $S/mutants.jsonl $S/out.jsonl $start $stride $workers"
