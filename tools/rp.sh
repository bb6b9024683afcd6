#!/bin/bash
# tools/rp.sh <prop> [budget] [repo]: run the replay search of one property
here="$(cd "$(dirname "$0")/.." && pwd)"; repo=${3:-/repo}; t=$(mktemp -d)
python3 - "$here" "$repo" > $t/o.json <<'P'
import json,os,sys
h,r=sys.argv[1:]
m={f'{r}/zz_verif_replay/{f}':f'{h}/replay/{f}' for f in os.listdir(h+'/replay') if f.endswith('.go')}
for d,_,fs in os.walk(h+'/replay/in'):
    for f in fs:
        if f.endswith('.go'): m[os.path.join(r,os.path.relpath(os.path.join(d,f),h+'/replay/in'))]=os.path.join(d,f)
print(json.dumps({"Replace":m}))
P
(cd $repo && go build -overlay $t/o.json -o $t/replay ./zz_verif_replay) && $t/replay -p $1 -budget ${2:-10} -seed ${SEED:-1} $ARGS 2>$t/err || { rc=$?; grep -vF "log/base.go" $t/err | head -${ERRN:-12} | cut -c1-200; exit $rc; }
rc=$?; rm -rf $t; exit $rc
