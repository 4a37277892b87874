#!/bin/bash
# run.sh <property> [quick|thorough]: build the engine if needed, then decide the property
# on the current /repo.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VERIF_DIR="$here"
mkdir -p "$here/build"
if [ ! -x "$here/build/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/build/gosym" -name '*.go' | head -1)" ]; then
  (cd "$here/gosym" && go build -o "$here/build/gosym.$$" . && mv "$here/build/gosym.$$" "$here/build/gosym") || exit 2
fi
[ "$1" = setup ] && { echo built; exit 0; }
exec "$here/build/gosym" check -id "$1" -tier "${2:-${VERIF_TIER:-quick}}"
