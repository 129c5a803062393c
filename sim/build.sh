#!/bin/bash
# build.sh ID OUTDIR : builds the simulation of property ID from /repo's working tree into OUTDIR
set -e
ID=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${STRTK_REPO:-/repo}
mkdir -p "$OUT"
CF="-std=c++14 -g1 -w -fno-omit-frame-pointer -I$HERE/core"
( g++ $CF -O1 -c "$HERE/core/sim.cpp" -o "$OUT/sim.o" ) & P1=$!
( g++ $CF -O1 -c "$HERE/core/simfs.cpp" -o "$OUT/simfs.o" ) & P2=$!
SAN=address; ENGINE=; LSAN=-fsanitize=address
if [ -f "$HERE/work/$ID.threads" ]; then   # thread engine: TSan instrumentation, our scheduler instead of the TSan runtime
   SAN=thread; LSAN="-pthread -rdynamic"; ENGINE="$OUT/threads.o"; ( g++ $CF -O1 -c "$HERE/core/threads.cpp" -o "$ENGINE" ) & P4=$!
fi
WF="-O1 -fsanitize=$SAN -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern"
P3=; PLAIN=; PARTS=; PP=
if [ -z "$NOWORK" ] && [ -f "$HERE/work/$ID.parts" ]; then   # further sources of the workload
   for X in $(cat "$HERE/work/$ID.parts"); do PARTS="$PARTS $OUT/$X.o"; ( g++ $CF $WF -I"$HERE/work" -isystem "$REPO" -c "$HERE/work/$X.cpp" -o "$OUT/$X.o" ) & PP="$PP $!"; done
fi
if [ -z "$NOWORK" ] && [ -f "$HERE/work/${ID}_plain.cpp" ]; then   # a second configuration of the library
   PLAIN="$OUT/plain.o"; ( g++ $CF $WF -I"$HERE/work" -isystem "$REPO" -c "$HERE/work/${ID}_plain.cpp" -o "$PLAIN" ) & P3=$!
fi
[ -n "$NOWORK" ] || g++ $CF $WF \
    -I"$HERE/work" -isystem "$REPO" -c "$HERE/work/$ID.cpp" -o "$OUT/work.o" || { wait; exit 1; }
wait $P1; wait $P2; [ -z "$P3" ] || wait $P3; [ -z "$ENGINE" ] || wait $P4
for X in $PP; do wait $X; done
g++ $LSAN -o "$OUT/sim_$ID" "$OUT/work.o" $PARTS $PLAIN $ENGINE "$OUT/sim.o" "$OUT/simfs.o" -ldl
