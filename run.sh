#!/bin/bash
# usage: run.sh <property> ; rebuilds the monitors against /repo's working tree and runs one check.
set -u
VD="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export VERIF_DIR="$VD" VERIF_SEED="${VERIF_SEED:-1}"
[ $# -ge 2 ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
BD="$(mktemp -d /tmp/vh-build.XXXXXX)"
trap 'rm -rf "$BD"' EXIT
cd "$VD/harness" || exit 70
cp go.mod go.sum "$BD/"
RACE=""
case "$1" in
  C13) RACE=-race;;
  C27) RACE="-cover -covermode=atomic -coverpkg=verifharness,github.com/KSpaceer/yamly/..."; mkdir "$BD/cov"; export GOCOVERDIR="$BD/cov";;
esac
if ! go build $RACE -modfile="$BD/go.mod" -o "$BD/vh" . 2>"$BD/err"; then
  echo "BUILD-FAILED"; cat "$BD/err"; exit 70
fi
"$BD/vh" run "$1"
