#!/bin/bash
# usage: evalall.sh LOG id...   evaluates planted bugs in isolated copies, three at a time
LOG=$1; shift
export VERIF_SRC=/tmp/iso_src
rm -rf /tmp/iso_src; cp -a /verif /tmp/iso_src
printf '%s\n' "$@" | VERIF_WORKERS=4 xargs -P 3 -I{} bash /tmp/iso_src/tools/iso.sh e_{} timeout 900 python3 /verif/tools/plant.py eval {} >> "$LOG" 2>&1
echo DONE >> "$LOG"
