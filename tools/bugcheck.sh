#!/bin/bash
# bugcheck.sh [ID...]: runs the check of each planted bug's property against it.
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C ${REPO:-/repo} apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  r=$(VERIF_REPO=${REPO:-/repo} timeout 900 bash /verif/run.sh "${CHECK:-$p}" 2>&1); c=$?
  git -C ${REPO:-/repo} checkout -q -- .
  echo "$id ($p): exit $c $(echo "$r" | grep -c "^VIOLATION property=") :: $(echo "$r" | grep '^  case' | head -1 | cut -c1-${W:-160})"
done
