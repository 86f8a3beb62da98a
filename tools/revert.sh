#!/bin/bash
# revert.sh COMMIT CHECK...: runs checks on a scratch copy of /repo with one fix commit reverted
c=$1; shift; w=/tmp/rv-$c; rm -rf "$w"; git clone -q /repo "$w"; git -C "$w" revert -n $c || { echo conflict; exit 1; }
for k in "$@"; do (cd /verif && VERIF_REPO=$w timeout 900 python3 check.py $k > /tmp/rv-$c.$k 2>&1); echo "$c $k rc=$? $(grep -a 'what:' /tmp/rv-$c.$k | head -1 | cut -c1-220)"; done; rm -rf "$w"
