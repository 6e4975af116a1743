#!/bin/bash
# Builds the executor (if it is not there) and checks one property against /repo's current tree.
# usage: check.sh PROPERTY [tier]
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -n "${2:-}" ] && export VERIF_TIER="$2"
. /opt/vp/env.sh >/dev/null 2>&1
if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" -name '*.go' -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/gosym" && CGO_ENABLED=0 GOFLAGS=-mod=mod go build -o "$here/bin/gosym.$$" . && mv "$here/bin/gosym.$$" "$here/bin/gosym") || { echo "cannot build gosym"; exit 3; }
fi
[ "$1" = build ] && exit 0
exec "$here/bin/gosym" -verif "$here" "$1"
