#!/bin/bash
# Builds the checker into checker/bin (ignored by git).
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/checker/bin"
cd "$here/checker" && GOFLAGS=-mod=mod GOPROXY=off go build -o bin/checker .
