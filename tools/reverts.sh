#!/bin/bash
# reverts each fix: commit in a scratch copy of /repo and runs the check of its property: it has to report the violation again
here=$(cd "$(dirname "$0")/.." && pwd)
python3 -c "
import json,re
for l in json.load(open('$here/known_findings.json'))['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+)',l); print(m.group(1),m.group(2))" | while read prop commit; do
  d=$(mktemp -d /tmp/vf_revert_XXXX); git clone -q /repo $d/repo
  if git -C $d/repo revert -n $commit >/dev/null 2>&1; then
    (cd $here && VF_REPO=$d/repo VF_EVIDENCE=$d python3 check.py $prop > $d/out 2>&1); rc=$?
    echo "$prop $commit rc=$rc $(grep -c '^VIOLATION' $d/out)"
  else echo "$prop $commit: does not revert cleanly"; fi
  rm -rf "$d"
done
