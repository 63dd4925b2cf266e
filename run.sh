#!/bin/bash
# usage: run.sh ID [quick|thorough]   (exit 0: the property holds, 1: VIOLATION)
cd "$(dirname "$0")" || exit 1
here=$PWD
export GOFLAGS="-buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
export PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
bin="$here/bin/verif"
if [ ! -x "$bin" ] || [ -n "$(find "$here/tool" -newer "$bin" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/tool" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || {
    echo "VIOLATION property=$1 replay=$here/run.sh the analyser does not build"
    exit 1
  }
fi
[ "$1" = setup ] && exit 0
exec "$bin" check -home "$here" -repo "${VERIF_REPO:-/repo}" -tier "${2:-quick}" "$1"
