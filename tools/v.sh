#!/bin/bash
# tools/v.sh NAME...: verify the parser functions whose names start so, showing little
for f in "$@"; do timeout ${T:-200} /verif/bin/gvc verify -nofb -m "parser.(*${R:-Parser}).$f" 2>/dev/null | cut -c1-${W:-330} | head -${N:-12}; done
