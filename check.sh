#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     run the monitors of one property against /repo
#        check.sh replay FILE                 run the case of a replay file again
#        check.sh build                       build both binaries
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
SEED="${VERIF_SEED:-1}"
OUT="$ROOT/.build"
mkdir -p "$OUT" || exit 2
build() { # build name [flags]
  local tmp
  tmp="$(mktemp -d)" || exit 2
  (cd "$ROOT/harness" && go build ${@:2} -o "$tmp/vh" .) || { rm -rf "$tmp"; echo "build failed" >&2; exit 2; }
  mv -f "$tmp/vh" "$OUT/$1"
  rm -rf "$tmp"
}
# the package datasets runs the go command when it is initialised: only the properties that need it have it
pick() {
  local race="" tags="" ; bin=vh
  if israce "$1"; then bin=$bin-race; race=-race; fi
  if grep -qx "$1" "$ROOT/harness/datasets.txt"; then bin=$bin-ds; tags=-tags=vdatasets; cd "$ROOT/harness" || exit 2; fi
  build $bin $race $tags
}
israce() { grep -qx "$1" "$ROOT/harness/race.txt"; }
case "${1:-}" in
  build) build vh; build vh-race -race; build vh-ds -tags=vdatasets; build vh-race-ds -race -tags=vdatasets; exit 0;;
  replay)
    p="$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$2")"
    case "$2" in /*) f="$2";; *) f="$PWD/$2";; esac
    pick "$p"
    exec "$OUT/$bin" -root "$ROOT" -replay "$f";;
esac
ID="${1:?property}"; TIER="${2:-${VERIF_TIER:-quick}}"; shift 2
pick "$ID"
"$OUT/$bin" -root "$ROOT" -prop "$ID" -tier "$TIER" -seed "$SEED" "$@"
