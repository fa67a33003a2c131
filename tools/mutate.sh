#!/bin/bash
# mutate.sh PATCH PROPERTY [SECONDS]: runs a check against a scratch copy of /repo with a planted change
set -e
P=$(readlink -f "$1"); M=/tmp/mut; mkdir -p $M
rsync -a --delete --exclude .git /repo/ $M/ 2>/dev/null || { rm -rf /tmp/mut; cp -a /repo $M; }
(cd $M && git init -q . 2>/dev/null; patch -f -s -p1 < "$P")
SIM_REPO=$M SIM_BUILD=/tmp/mutbuild SIM_EVIDENCE=/tmp/mutbuild/evidence SIM_SECS=${3:-20} python3 /verif/run_check.py $2 quick 2>&1 | tail -${L:-3} | cut -c1-400
