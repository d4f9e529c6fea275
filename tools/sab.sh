#!/bin/bash
# sab.sh PROP FILE SED-EXPR : runs PROP against a scratch copy of /repo with one edit (development aid)
M=/tmp/m
mkdir -p $M; rsync -a --delete --exclude=.git --exclude=build /repo/src $M/ 2>/dev/null || { rm -rf /tmp/m/src; cp -a /repo/src $M/; }
[ -e $M/3rdparty ] || ln -s /repo/3rdparty $M/3rdparty
sed -i "$3" $M/src/$2
diff -rq /repo/src $M/src >/dev/null && echo "NO CHANGE: $3"
SX_REPO=$M timeout 900 python3 /verif/check.py $1 > /tmp/sab.$1.log 2>&1; rc=$?
echo "$1 rc=$rc : $3 :: $(grep -c VIOLATION /tmp/sab.$1.log) $(grep -B3 VIOLATION /tmp/sab.$1.log | grep -v native | head -1 | cut -c1-120)"
