#!/bin/bash
# Replays every btcec harness with all inputs zero on the unchanged tree: the native searches that confirm
# counterexamples must be silent there. natives.sh [SUBSTRING]
cd "$(dirname "$0")/.." || exit 2
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
P=115792089237316195423570985008687907853269984665640564039457584007908834671663
N=115792089237316195423570985008687907852837564279074904382605163141518161494337
for f in harness/btcec/*.go; do
 for h in $(grep -oE "^func V_[A-Za-z0-9_]+" "$f" | sed 's/func //' | grep -- "${1:-V_}"); do
  echo "{\"Harness\":\"$h\",\"Pkg\":\"btcec\",\"File\":\"$(basename "$f")\",\"Kind\":\"cover\",\"Msg\":\"end\",\"Vars\":{},\"Cfg\":{\"N\":\"$N\",\"P\":\"$P\"}}" > "$t/w.json"
  o=$(bash run.sh replay "$t/w.json" 2>&1)
  case "$o" in *REPLAY-VIOLATION*|*panic:*|*"exit 124"*) echo "$h: $o" | head -3;; esac
 done
done
