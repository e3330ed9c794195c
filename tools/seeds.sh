#!/bin/bash
# Runs the check of each planted bug's property against it (with ALL=1, every
# check) and lists which report a violation.
# usage: [ALL=1] tools/seeds.sh [id...]
cd "$(dirname "$0")/.." || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOGC=400
T=$(mktemp -d /tmp/seeds.XXXXXX)
trap 'rm -rf "$T"' EXIT
(cd checker && go build -o "$T/chk" .) || exit 2
mkdir -p "$T/home"; cp known_findings.txt "$T/home/"
git clone -q /repo "$T/repo"
claimed=$(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for d in seeded/*/; do
  n=$(basename "$d")
  [ $# -gt 0 ] && [[ " $* " != *" $n "* ]] && continue
  git -C "$T/repo" reset -q --hard; git -C "$T/repo" clean -fdq
  git -C "$T/repo" apply "$PWD/$d/patch.diff" || { echo "$n: does not apply"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  hits=""
  for c in $([ -n "$ALL" ] && echo $claimed || echo $p); do
    if VERIF_HOME="$T/home" VERIF_REPO="$T/repo" timeout 900 "$T/chk" $c 2>&1 | grep "^VIOLATION" > "$T/out"; then
      u=""; grep -q undecided "$T/out" && u="?"
      hits="$hits$c$u "
    fi
  done
  hit=MISSED; [[ " $hits" == *" $p"* ]] && hit=caught
  echo "$n: $hit by $p; ${ALL:+all: $hits}"
done
