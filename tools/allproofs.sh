#!/bin/sh
# all proof suites, one line per case that is not fully proved
cd "$(dirname "$0")/.."
for p in ${@:-$(ls pyvc/spec | sed -n 's/^\(C[0-9]*\)\.py$/\1/p')}; do
  s=$(date +%s)
  python3-vt -m pyvc.harness $p > /tmp/allproofs.$p 2>&1
  awk '/^    FAILED/{print "'$p' " substr($0,1,200); next} /^ /{next} {for(i=1;i<=NF;i++) if ($i ~ /^[0-9]+\/[0-9]+$/) {split($i,a,"/"); if (a[1]!=a[2] || $0 !~ / ok /) print "'$p' " substr($0,1,250)}}' /tmp/allproofs.$p
  echo "$p $(( $(date +%s) - s ))s $(grep -c . /tmp/allproofs.$p) cases"
done
