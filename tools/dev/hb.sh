#!/bin/bash
# hb.sh name parts [flags]: build harness -> /tmp/name
n=$1; parts=$2; shift 2
cd /tmp; rm -f /tmp/hb_$n.*.o
(for p in $(seq 1 $parts); do ( g++ ${STD:--std=c++14} -O0 -w -DPART=$p -DTOON_CHECK_BOUNDS -DTOON_TEST_INTERNALS -DTOON_INITIALIZE_NAN "$@" -I${REPO:-/repo} -c /verif/harness/$n.cc -o /tmp/hb_$n.$p.o 2>&1 | grep "error\|$n.cc" | cut -c1-330 | grep -v required | head -12 ) & done; wait; g++ "$@" /tmp/hb_$n.*.o -o $n -llapack -lblas 2>&1) | head -c 4000
