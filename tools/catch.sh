#!/bin/bash
# development aid: run each seeded change's own check (or the checks given in $CHECKS) against a patched scratch copy
cd "$(dirname "$0")/.."
T=$(mktemp -d /tmp/catch-XXXX)
for d in ${@:-$(ls seeded)}; do
  cp -a ${SDREPO:-/repo} "$T/repo"; git -C "$T/repo" checkout -q -- .
  if git -C "$T/repo" apply --whitespace=nowarn "$PWD/seeded/$d/patch.diff"; then
    for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")}; do
      s=$(date +%s)
      VERIF_EVIDENCE=$T/ev VERIF_REPO=$T/repo bash run.sh $c --tier ${TIER:-quick} >$T/out 2>&1; rc=$?
      echo "$d $c rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' $T/out) $(grep -m1 '^VIOLATION' $T/out | cut -c1-150)"
    done
  else echo "$d: patch does not apply"; fi
  rm -rf "$T/repo"
done
rm -rf "$T"
