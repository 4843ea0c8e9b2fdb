#!/bin/bash
# Development aid: which checks catch the seeded changes (all, or those named).  tools/catch.sh [ID...]
# env CHECKS="C01 C02": run those checks instead of the one of the property the change breaks
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(/usr/bin/python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  echo "$id: $(tools/mut.sh $PWD/seeded/$id/patch.diff ${CHECKS:-$p})"
done
