#!/bin/bash
# trybugs.sh [ID...]: runs the check of each planted bug's property (or PROPS) against a copy of /repo with the bug
W=$(mktemp -d /tmp/tb.XXXXXX)
cd /verif/analyzer && go build -mod=vendor -o $W/jvt . || exit 2
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  rm -rf $W/r $W/v; mkdir $W/v; cp -a /repo $W/r; cp /verif/known-findings.txt $W/v/
  (cd $W/r && git apply /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  for p in ${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
    s=$(date +%s)
    JVREPO=$W/r JVVERIF=$W/v JVHARNESS=/verif/analyzer/harness $W/jvt check $p > $W/out 2>&1
    echo "$id $p rc=$? $(( $(date +%s)-s ))s $(grep -v INCONCL $W/out | head -1 | cut -c1-200)"
  done
done
rm -rf $W
