#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property of /repo's working tree
# check.sh --replay <file>               re-run a recorded failing input
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/bin"
bash "$here/setup.sh" >/dev/null || { echo "could not build the verifier"; exit 2; }
if [ "$1" = "--replay" ]; then
  exec "$here/bin/gvc" replay "$2" "$here"
fi
exec "$here/bin/gvc" check -spec "$here/contracts" "$1" "$here" ${2:-}
