#!/bin/bash
# tools/seedtest.sh ID...: confirm planted bugs in scratch copies of /repo:
# demo passes without and fails with the change, and the stable tests still pass.
# Set FAST=1 to leave the tests out.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  w=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$w/repo"
  mkdir "$w/demo"; cp -a "$d/." "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  cd "$w/repo" || exit 1
  export PYTHONDONTWRITEBYTECODE=1
  sed "s#/repo#$w/repo#g" -i "$w"/demo/*
  timeout 300 bash "$w/demo/demo.sh" >"$w/a.log" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  timeout 300 bash "$w/demo/demo.sh" >"$w/b.log" 2>&1; b=$?
  t="tests not run"
  if [ -z "$FAST" ]; then
    export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
    PYTHONPATH="$w/repo" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 tests --ignore=tests/system >"$w/u.log" 2>&1; u=$?
    PYTHONPATH="$w/repo" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=150 -n 5 --dist load --maxschedchunk=1 tests/system >"$w/s.log" 2>&1; s=$?
    t="unit rc=$u $(tail -1 $w/u.log), system rc=$s $(tail -1 $w/s.log)"
  fi
  echo "$id: demo unpatched=$a patched=$b; $t"
  [ $a -eq 0 ] || tail -5 "$w/a.log"
  [ -n "$VERBOSE" ] && tail -5 "$w/b.log"
  cd /; rm -rf "$w"
done
