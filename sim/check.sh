#!/bin/bash
# check.sh PROPERTY [--replay FILE | simcheck options]
# Builds an instrumented copy of /repo's working tree and the simulator around
# it in a scratch directory, and decides one property.
set -u
PROP=$1; shift
SIM=$(cd "$(dirname "$0")" && pwd)
VERIF=$(dirname "$SIM")
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
unset GOMAXPROCS GODEBUG GOGC GOMEMLIMIT GOEXPERIMENT
mkdir -p "$VERIF/.build"
SCR=$(mktemp -d "$VERIF/.build/$PROP.XXXXXX") || exit 2
trap 'rm -rf "$SCR"' EXIT
trap 'exit 2' INT TERM
cd "$SIM" || exit 2
go build -o "$SCR/instr" ./cmd/instr || { echo "check.sh: the instrumenter does not build" >&2; exit 2; }
ok=
case $PROP in C08|C09|C12|C13) RACES=-races;; *) RACES=;; esac
for level in full yield none; do
  rm -rf "$SCR/vlapi"
  "$SCR/instr" -src "$REPO" -dst "$SCR/vlapi" -level $level $RACES >"$SCR/instr.log" 2>&1 || continue
  sed "s#=> ./.vlapi#=> $SCR/vlapi#" go.mod >"$SCR/go.mod"
  : >"$SCR/go.sum"
  if go build -modfile="$SCR/go.mod" -o "$SCR/simcheck" ./cmd/simcheck >"$SCR/build.log" 2>&1; then ok=1; break; fi
done
if [ -z "$ok" ]; then
  echo "check.sh: the harness does not build against $REPO" >&2
  cat "$SCR/instr.log" "$SCR/build.log" >&2
  exit 2
fi
[ $level = full ] || echo "check.sh: instrumentation level $level" >&2
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=1;; esac
ARGS=()
if [ "${1:-}" = --replay ]; then ARGS+=(-replay "$2"); shift 2; fi
"$SCR/simcheck" -prop "$PROP" -tier "$TIER" -seed "$SEED" -scratch "$SCR" -sites "$SCR/vlapi/sites.json" \
  -known "$VERIF/known-findings.txt" -evidence "$VERIF/evidence" -replays "$VERIF/replays" "${ARGS[@]}" "$@"
