#!/bin/bash
# one.sh pkgpattern contract
. /opt/vp/env.sh
cd /verif/gvc && go build -o bin/gvc . || exit 1
export GVC_INV=1
p=$1; shift
for c in "$@"; do echo "$c" | timeout ${T:-300} /verif/gvc/bin/gvc worker -par 8 "$p" 2>&1 | python3 /tmp/sum.py; done
