#!/bin/bash
# determinism.sh [N] [SEED]   one seed is one execution: the event-log hash, the hash of the schedule, the
# numbers of steps and of choices and the verdict of runs 0..N of every property, executed
#   (a) in one process, (b) again, backwards, with another environment and stack limit, (c) by seven
#   processes with a part each, must be the same.
set -u
cd "$(dirname "$0")/.." || exit 2
N=${1:-1500}; SEED=${2:-1}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
bad=0
./setup.sh || exit 2
one() { # PROP
  local P=$1 X=target/plain/release/xsim k
  [ "$P" = C24 ] && X=target/instr/release/xsim
  [ "$P" = C27 ] && X=target/helpers/release/xsim
  $X hashes --prop "$P" --seed "$SEED" --start 0 --end "$N" >"$T/$P.a" 2>/dev/null
  (ulimit -s 65536; PADDING=$(head -c 5000 /dev/zero | tr '\0' x) \
    $X hashes --prop "$P" --seed "$SEED" --start 0 --end "$N" --order backwards 2>/dev/null | sort -n) >"$T/$P.b"
  for k in 0 1 2 3 4 5 6; do
    $X hashes --prop "$P" --seed "$SEED" --start $((N * k / 7)) --end $((N * (k + 1) / 7)) 2>/dev/null
  done >"$T/$P.c"
  if cmp -s "$T/$P.a" "$T/$P.b" && cmp -s "$T/$P.a" "$T/$P.c" && [ "$(wc -l <"$T/$P.a")" = "$N" ]; then
    echo "$P: $N runs, $(cut -d' ' -f3 "$T/$P.a" | sort -u | wc -l) distinct histories: same thrice"
  else
    echo "$P: DIFFERENT"
    diff "$T/$P.a" "$T/$P.b" | head -4
    diff "$T/$P.a" "$T/$P.c" | head -4
    touch "$T/bad"
  fi
}
PROPS=$(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')
for P in $PROPS; do
  one "$P" &
  while [ "$(jobs -r | wc -l)" -ge 8 ]; do wait -n; done
done
wait
[ -e "$T/bad" ] && exit 1
exit 0
