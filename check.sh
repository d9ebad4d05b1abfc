#!/bin/bash
# check.sh Cxx                   decide property Cxx by seeded simulation of the library in /repo (exit 0 / 1)
# check.sh --replay FILE         re-execute a replay file against the library in /repo (exit 1 if it violates)
# VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_TIME (seconds of search, overrides the tier)
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export ASAN_OPTIONS=detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99
export UBSAN_OPTIONS=print_stacktrace=1:exitcode=99
ulimit -c 0

replay=
if [ "${1:-}" = --replay ]; then
  replay=$(readlink -f "$2")
  prop=$(sed -n 's/^prop //p' "$replay" | head -1)
else
  prop=${1:?usage: check.sh Cxx | --replay FILE}
fi
exe=simrun kind=plain
[ "$prop" = C21 ] && exe=simrun-asan kind=asan
[ "$prop" = C24 ] && kind=stm

mkdir -p build replays evidence
./build.sh sim >build/sim.log 2>&1 || { cat build/sim.log >&2; echo "cannot build the simulator" >&2; exit 2; }
imgs=$(mktemp -d "$here/build/img.XXXXXX")
trap 'rm -rf "$imgs"' EXIT
./build.sh images "$imgs" $kind >"$imgs.log" 2>&1 || { cat "$imgs.log" >&2; rm -f "$imgs.log"; echo "cannot build /repo" >&2; exit 2; }
rm -f "$imgs.log"

if [ -n "$replay" ]; then
  x=$imgs
  case $replay in */sim/stm/known/*) x=$imgs/known$(basename "$replay" .plan) ;; esac
  build/$exe replay --file "$replay" --imgs "$x"
  exit $?
fi
time=25 more=
[ "$prop" = C21 ] && time=40
if [ "$VERIF_TIER" = thorough ]; then
  time=600 more=--thorough
fi
time=${VERIF_TIME:-$time}
if [ "$prop" = C24 ]; then
  # each recorded defect of the example drivers: re-execute its history against the code with the other ones repaired
  while read -r k; do
    build/simrun replay --file "sim/stm/known/$k.plan" --imgs "$imgs/known$k" >/dev/null 2>&1 && continue
    grep "^KNOWN-FINDING: property=C24 driver-$k " KNOWN_FINDINGS.txt
  done <"$imgs/ex.fixed"
fi
build/$exe run --prop "$prop" --seed "$VERIF_SEED" --time "$time" --imgs "$imgs" \
  --out "evidence/$prop.json" --replays replays --min 40 $more
