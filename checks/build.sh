#!/bin/bash
# Builds the analyser from /verif/analyzer into /verif/bin, offline.
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
cd "$here/analyzer" || exit 1
mkdir -p "$here/bin"
GOFLAGS=-mod=mod GOSUMDB=off go build -o "$here/bin/kdcheck.$$" . && mv "$here/bin/kdcheck.$$" "$here/bin/kdcheck"
