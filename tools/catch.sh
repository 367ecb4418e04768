#!/bin/bash
# tools/catch.sh [ID...]: which checks catch which planted bugs (in scratch copies).
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  w=$(mktemp -d /tmp/catch-XXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    out=$(VERIF_REPO="$w/repo" ./run.py $c --tier quick 2>&1); rc=$?
    echo "$id ($p) check $c: rc=$rc $(echo "$out" | grep -c '^VIOLATION property='"$c") $(echo "$out" | grep '^scenario' | cut -c1-140)"
  done
  rm -rf "$w"
done
