#!/bin/bash
# seeds.sh [ID...]: apply each planted bug to a scratch copy and run the check of
# its property (or CHECK=..) against it.
for s in ${@:-$(ls /verif/seeded)}; do
  d=/verif/seeded/$s
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/sd-XXXX); cp -a /repo $w/repo; git -C $w/repo checkout -q -- .
  git -C $w/repo apply $d/patch.diff || echo "APPLY FAILED $s"
  out=$(cd /verif && VERIF_REPO=$w/repo timeout 900 python3 bin/check.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | sed -n 2p | cut -c1-150)"
  rm -rf $w
done
