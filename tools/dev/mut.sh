#!/bin/bash
# mut.sh harness parts TraceModule "args" file old new : apply a mutation on a copy of the fixed tree and check a trace
h=$1; parts=$2; tm=$3; args=$4; f=$5; old=$6; new=$7
S=${SRC:-/repo}
mkdir -p /tmp/repo3 && rsync -a --delete --exclude .git $S/ /tmp/repo3/ 2>/dev/null || cp -a $S/. /tmp/repo3/
python3 - "$f" "$old" "$new" <<'P' || { echo "NOT APPLIED: $old"; exit; }
import sys
f='/tmp/repo3/TooN/'+sys.argv[1]; s=open(f).read()
if sys.argv[2] not in s: sys.exit(1)
open(f,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
cd /tmp; mkdir -p mut; for p in $(seq 1 $parts); do ( g++ -std=c++17 -O0 -w -DPART=$p -DTOON_CHECK_BOUNDS -DTOON_TEST_INTERNALS -DTOON_INITIALIZE_NAN -I/tmp/repo3 -c /verif/harness/$h.cc -o /tmp/mut/$h.$p.o 2>&1 | grep error | head -3 ) & done; wait
g++ /tmp/mut/$h.*.o -o /tmp/mut/$h -llapack -lblas || exit
for sd in 1 2; do timeout 100 /tmp/mut/$h $args --seed $sd --out /tmp/mut/o.ndjson; rc=$?; r=$(/tmp/tl.sh $tm /tmp/mut/o.ndjson 40 | grep -c "No error"); echo "seed $sd rc=$rc $([ $r = 1 ] && echo MISSED || echo caught)  [$old -> $new]"; done
rm -f /tmp/mut/$h.*.o
