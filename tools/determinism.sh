#!/bin/bash
# tools/determinism.sh [N [SEED]]: the first N runs of every check, in one
# process, in four, and in single-run processes for the last few; all must have
# the same hash over their choices and events.
cd "$(dirname "$0")/.." || exit 2
n=${1:-400}; seed=${2:-1}; bad=0
./run.sh build || exit 2
sim=sim/target/release/sim
t=$(mktemp -d)
hashes() { $sim hashes "$@" 2>/dev/null | grep -aE "^[0-9]+ [0-9a-f]+ "; }
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20 C21 C22 C23; do
  hashes $p $seed 0 $n >"$t/a"
  : >"$t/b"
  for i in 0 1 2 3; do hashes $p $seed $((n/4*i)) $((n/4)) >>"$t/b"; done
  for i in $(seq $((n-20)) $((n-1))); do hashes $p $seed "$i" 1; done >"$t/c"
  if head -$((n/4*4)) "$t/a" | cmp -s - "$t/b" && tail -20 "$t/a" | cmp -s - "$t/c"; then
    echo "$p: $(wc -l <"$t/a") runs identical ($(sha256sum <"$t/a" | cut -c1-16))"
  else
    echo "$p: DIFFERENT"; bad=1
  fi
done
rm -r "$t"
exit $bad
