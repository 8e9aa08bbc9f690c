#!/bin/bash
# check.sh <property> [tier]: analyse /repo's current source for one property.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
bin="$here/checker/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/checker/bin"
  (cd "$here/checker" && GOFLAGS=-mod=mod GOPROXY=off go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 2
fi
exec "$bin" "$1"
