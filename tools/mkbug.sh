#!/bin/bash
# mkbug.sh <id> <property>: takes the uncommitted change in /tmp/wt (a copy of /repo), checks it and stores it in /verif/seeded/<id>.
# demo files must already be in /verif/seeded/<id>/ (demo.sh, meta.json)
set -u
id=$1; d=/verif/seeded/$id
cd /tmp/wt || exit 1
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
go build ./... && go vet ./token ./runes >/dev/null 2>&1
o=$(go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head -5); [ -n "$o" ] && { echo "$o"; echo "TESTS FAIL with $id"; git checkout -q .; exit 1; }
( bash $d/demo.sh >/tmp/demo.out 2>&1 ); a=$?
git checkout -q .
( bash $d/demo.sh >/tmp/demo0.out 2>&1 ); b=$?
echo "$id demo: with=$a without=$b"; [ $a -ne 0 ] && [ $b -eq 0 ] || { tail -n 5 /tmp/demo.out /tmp/demo0.out; exit 1; }
