#!/bin/bash
# trybugs.sh [ID...]: run the check of each planted bug's property against a copy of /repo with the bug (RANKEVAL_REPO)
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  rm -rf /tmp/try-repo; cp -a /repo /tmp/try-repo; git -C /tmp/try-repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  out=$(RANKEVAL_REPO=/tmp/try-repo ./check.sh $p quick 2>&1); rc=$?
  echo "$b $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -1 | grep -o 'no-failing.*') | $(echo "$out" | grep -E 'input:|failed obl' | head -2 | cut -c1-160 | tr '\n' ';')"
  git checkout -q -- evidence 2>/dev/null
done
rm -rf /tmp/try-repo
