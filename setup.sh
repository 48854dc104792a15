#!/bin/bash
# warms the build cache; the checks rebuild from /repo's working tree themselves
VD="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
BD="$(mktemp -d /tmp/vh-setup.XXXXXX)"; trap 'rm -rf "$BD"' EXIT
cd "$VD/harness" && cp go.mod go.sum "$BD/" || exit 1
go build -modfile="$BD/go.mod" -race -o "$BD/vh" .
go build -modfile="$BD/go.mod" -cover -covermode=atomic -coverpkg=verifharness,github.com/KSpaceer/yamly/... -o "$BD/vh" .
go build -modfile="$BD/go.mod" -o "$BD/vh" . && "$BD/vh" list
