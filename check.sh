#!/bin/bash
# Decide one property on /repo's current working tree.
#   check.sh ID                    quick tier (or the tier in VERIF_TIER)
#   check.sh ID --thorough         thorough tier
#   check.sh ID --replay FILE      re-execute a recorded violation
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: error of the check.
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
ID=$1
shift
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-buildvcs=false
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GORACE GODEBUG GOGC GOMEMLIMIT GOMAXPROCS

ARGS=()
DEADLINE=560
if [ "$VERIF_TIER" = thorough ]; then ARGS+=(-thorough); DEADLINE=3000; fi
while [ $# -gt 0 ]; do
  case "$1" in
    --thorough) ARGS+=(-thorough); DEADLINE=3000 ;;
    --quick) ;;
    --replay) ARGS+=(-replay "$2"); shift ;;
    --deadline) DEADLINE=$2; shift ;;
    *) ARGS+=("$1") ;;
  esac
  shift
done

W=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT

build() { # build [-race] OUT
  local race=
  if [ "$1" = -race ]; then race=-race; shift; fi
  (cd "$REPO" && go build $race -mod=readonly -overlay "$W/overlay.json" -o "$1" ./zz_verif/harness)
}

(cd "$VERIF/tools/vinst" && go build -o "$W/vinst" .) || exit 3
if "$W/vinst" -repo "$REPO" -verif "$VERIF" -out "$W" && build "$W/harness"; then
  MODE=instrumented
else
  echo "note: instrumented build failed, using the plain sources" >&2
  "$W/vinst" -raw -repo "$REPO" -verif "$VERIF" -out "$W" && build "$W/harness" || exit 3
  MODE=raw
fi
if [ $MODE = instrumented ] && "$W/harness" -check "$ID" -needrace "${ARGS[@]}"; then
  if build -race "$W/harness-race"; then ARGS+=(-racebin "$W/harness-race"); else echo "note: no race build" >&2; fi
fi
"$W/harness" -check "$ID" -verif "$VERIF" -deadline "$DEADLINE" "${ARGS[@]}"
