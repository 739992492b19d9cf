#!/bin/bash
# determinism.sh [CASES] [SEEDS...]: the same search twice (8 and 3 workers, other
# temporary directory) has to give the same traces, counts and probes.
cd "$(dirname "$0")/.." || exit 2
cases=${1:-40}; shift
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
bad=0
for seed in "${@:-1}"; do
  for prop in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
    [ -f dst/props/${prop,,}.py ] || continue
    VERIF_SEED=$seed DST_CASES=$cases DST_WORKERS=8 DST_SIGS=$out/a ./check $prop quick >$out/log1 || bad=1
    VERIF_SEED=$seed DST_CASES=$cases DST_WORKERS=4 TMPDIR=$out DST_SIGS=$out/b ./check $prop quick >$out/log2 || bad=1
    if cmp -s $out/a $out/b; then echo "$prop seed $seed: same"; else echo "$prop seed $seed: DIFFERENT"; diff $out/a $out/b | head -5; bad=1; fi
  done
done
exit $bad
