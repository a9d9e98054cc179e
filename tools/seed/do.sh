#!/bin/bash
# do.sh ID... : (re)create the seeds and run their check
cd /verif
for s in "$@"; do echo "== $s"; python3 tools/seed/mk.py $(cat tools/seed/specs/$s.cmd) tools/seed/specs/$s.py -c 2>&1 | cut -c1-300 | head -${L:-8}; done
