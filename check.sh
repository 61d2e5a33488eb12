#!/bin/bash
# Decides one property of the code in /repo by static analysis: check.sh ID
# exit 0: it holds; exit 1 and a VIOLATION line: it does not.
cd "$(dirname "$0")" || exit 2
export JVVERIF="$PWD" JVHARNESS="$PWD/analyzer/harness"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd analyzer && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o "$tmp/jv" .) || exit 2
"$tmp/jv" check "$1"
