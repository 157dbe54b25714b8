#!/bin/bash
# seedcheck.sh ID...: demo on the unchanged tree and with the patch, then the property's check with the patch
cd /verif
for id in "$@"; do
  d=seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  C=$(mktemp -d /tmp/sc.XXXXXX); cp -a "$d/." "$C/"
  tools/trial.sh none bash -c "cd /repo && bash $C/demo.sh" >"$C/d0" 2>&1; a=$?
  tools/trial.sh "$d/patch.diff" bash -c "cd /repo && go vet ./float >/dev/null 2>&1; bash $C/demo.sh" >"$C/d1" 2>&1; b=$?
  s=$(date +%s)
  if [ -z "$NOCHECK" ]; then tools/trial.sh "$d/patch.diff" ./check.sh $p >"$C/c" 2>&1; c=$?; else c=-; fi
  echo "$id $p demo-clean=$a demo-bug=$b check=$c ($(( $(date +%s)-s )) s)"
  [ $a = 0 ] || tail -5 "$C/d0"
  [ $b != 0 ] || tail -5 "$C/d1"
  grep -q "build failed\|setup failed" "$C/d1" && tail -20 "$C/d1"
  [ "$c" = 1 ] || [ "$c" = - ] || tail -5 "$C/c"
  rm -rf "$C"
done
