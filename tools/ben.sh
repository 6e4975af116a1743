#!/bin/bash
# Runs the checks against a refactored copy of the repository (developer aid; no check uses it).
# usage: ben.sh COPY [PROPERTY...]
copy=$1; shift
v=$(mktemp -d /tmp/benv.XXXX)
cp -a /verif/bin /verif/zverif /verif/properties.jsonl /verif/known-findings.txt /verif/claimed.txt "$v"/
mkdir -p "$v/evidence"
. /opt/vp/env.sh >/dev/null 2>&1
for p in ${@:-$(cat /verif/claimed.txt)}; do
  s=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 timeout 900 "$v/bin/gosym" -verif "$v" -repo "$copy" "$p" > "$v/out" 2>&1
  rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s"
  [ $rc = 0 ] || head -c 3000 "$v/out"
done
rm -rf "$v"
