#!/bin/bash
# Runs every analysis on behaviour-preserving edits of /repo (neutral/*.diff):
# none may report a finding or be left undecided.
# usage: tools/neutral.sh [name...]
cd "$(dirname "$0")/.." || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOGC=400
T=$(mktemp -d /tmp/neutral.XXXXXX)
(cd checker && go build -o "$T/chk" .) || exit 2
git clone -q /repo "$T/repo"
fail=0
for d in neutral/*.diff; do
  n=$(basename "$d" .diff)
  [ $# -gt 0 ] && [[ " $* " != *" $n "* ]] && continue
  git -C "$T/repo" reset -q --hard; git -C "$T/repo" clean -fdq
  if ! git -C "$T/repo" apply "$PWD/$d"; then echo "$n: does not apply"; fail=1; continue; fi
  s=$(date +%s)
  VERIF_REPO="$T/repo" timeout 800 "$T/chk" debug jobs '.' > "$T/out" 2>&1
  sed -i -E '/^FINDING .* :: (oneof the members|group a group|recursion decoding)/d' "$T/out" # the known findings
  f=$(grep -c ^FINDING "$T/out"); u=$(grep -c ^UNDECIDED "$T/out"); e=$(tail -1 "$T/out" | cut -c1-100)
  echo "$n: findings=$f undecided=$u $(( $(date +%s) - s ))s $e"
  if [ "$f$u" != 00 ]; then fail=1; grep -E '^(FINDING|UNDECIDED)' "$T/out" | sed 's/^\([A-Z]*\) .* :: /\1 :: /' | cut -c1-220 | sort | uniq -c | sort -rn | head -4; fi
done
rm -rf "$T"
exit $fail
