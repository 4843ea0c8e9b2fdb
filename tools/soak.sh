#!/bin/bash
# Development aid: run checks with other seeds from a copy of the committed work.
#   tools/soak.sh "C01 C02 ..." "2 3 4" [tier] [cap]    output: /tmp/soak.log
set -u
dir=$(mktemp -d /tmp/soak.XXXXXX)
git clone -q "$(dirname "$0")/.." $dir/v
cd $dir/v
for seed in $2; do for c in $1; do
  DST_EVIDENCE=$dir/ev VERIF_TIER=${3:-quick} ./check $c --tier ${3:-quick} --seed $seed ${4:+--cap $4} > $dir/out 2>&1
  rc=$?
  echo "seed $seed: $(grep -vE '^KNOWN' $dir/out | tail -1 | cut -c1-150) rc=$rc" >> /tmp/soak.log
  [ $rc -ne 0 ] && { cat $dir/out >> /tmp/soak.log; mkdir -p /tmp/soak_replays; cp -r $dir/ev/replays/* /tmp/soak_replays/ 2>/dev/null; }
done; done
echo finished >> /tmp/soak.log
rm -rf "$dir"
