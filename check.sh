#!/bin/bash
# check.sh PROPERTY: builds the checker from /verif/checker and analyses /repo's current source.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off
export VERIF_HOME="$PWD"
mkdir -p bin
bin="bin/checker.$$"
trap 'rm -f "$VERIF_HOME/$bin"' EXIT
(cd checker && GOFLAGS=-mod=mod go build -o "../$bin" .) || exit 2
"./$bin" "$1"
exit $?
