#!/bin/bash
# determinism.sh [RUNS] [SEED]: carries out the same runs in separate processes, with one and with eight
# processors, in different orders, and compares everything observed (outcomes, stored state, messages).
cd "$(dirname "$0")/.." || exit 2
N=${1:-100} S=${2:-5}
./build.sh || exit 2
D=$(mktemp -d /tmp/det.XXXXXX)
for p in $(seq -w 1 21) 23 24 25 26 27; do
  echo "SIM_TRACE=1 GOMAXPROCS=1 .build/sim worker -prop C$p -seed $S -total $N -out $D/a$p > $D/C$p.a"
  echo "SIM_TRACE=1 GOMAXPROCS=8 GOGC=20 .build/sim worker -prop C$p -seed $S -total $N -out $D/b$p > $D/C$p.b"
  echo "for i in \$(seq 0 6); do SIM_TRACE=1 GOMAXPROCS=2 .build/sim worker -prop C$p -seed $S -from \$i -stride 7 -total $N -out $D/c$p; done | sort -k2n > $D/C$p.c"
done | xargs -P 8 -d '\n' -I{} sh -c '{}'
bad=0
for p in $(seq -w 1 21) 23 24 25 26 27; do
  for x in b c; do cmp -s $D/C$p.a $D/C$p.$x || { echo "C$p: differs ($x)"; diff $D/C$p.a $D/C$p.$x | head -4; bad=1; }; done
done
wc -l < <(cat $D/*.a); rm -rf "$D"
exit $bad
