#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds the harness against /repo's working tree and runs one property
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export VERIF_SEED=${VERIF_SEED:-1}
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p build
BIN=$ROOT/build/vharness
export VHARNESS_RACE=/nonexistent # never one built against another tree
build() { # build [-race] OUT
  local tmp
  tmp=$(mktemp "$ROOT/build/tmp.XXXXXX") || return 1
  (cd harness && go build "${@:1:$#-1}" -o "$tmp" .) && chmod +x "$tmp" && mv -f "$tmp" "${!#}" && return 0
  rm -f "$tmp"
  return 1
}
build "$BIN" || { echo "cannot build the harness against /repo" >&2; exit 2; }
if "$BIN" list | awk -F'\t' -v id="$ID" '$1 == id && $3 == "true" { found = 1 } END { exit !found }'; then
  export VHARNESS_RACE=$BIN-race
  build -race "$BIN-race" || { echo "cannot build the race harness against /repo" >&2; exit 2; }
fi
exec "$BIN" run "$ID" "$TIER"
