#!/bin/bash
# run.sh DIR [ids]: run the checks against a copy of the repository
cd "$(dirname "$0")/../.."; d=$1; shift
[ $# -eq 0 ] && set -- $(ls checks | grep -o '^c[0-9][0-9]' | tr c C)
for c in "$@"; do SX_REPO=$d timeout 880 python3-vt run.py $c 2>&1 | cut -c1-400; done
