#!/bin/bash
# usage: check.sh PROPERTY
# Builds the analyser and decides one property for the current tree of /repo.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
for d in /opt/veriftools/go1.26.10/bin /opt/veriftools/go*/bin; do
	if [ -x "$d/go" ]; then PATH="$d:$PATH"; break; fi
done
export PATH
tmp=$(mktemp -d /tmp/dcverif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! (cd tool && go build -o "$tmp/dcverif" .); then
	echo "the analyser does not build"
	exit 2
fi
"$tmp/dcverif" check "$1"
exit $?
