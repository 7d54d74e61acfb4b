#!/bin/bash
# Builds the analyser once, to warm the build cache.
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
for d in /opt/veriftools/go1.26.10/bin /opt/veriftools/go*/bin; do
	if [ -x "$d/go" ]; then PATH="$d:$PATH"; break; fi
done
export PATH
tmp=$(mktemp -d /tmp/dcverif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd tool && go build -o "$tmp/dcverif" .
