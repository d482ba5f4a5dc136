#!/bin/bash
# usage: check.sh PROPERTY TIER
# Builds the simulation of /repo's current tree and searches it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/sim" || exit 2
mkdir -p "$root/.build" || exit 2
bin=$(mktemp "$root/.build/simctl.XXXXXX") || exit 2
trap 'rm -f "$bin"' EXIT
go build -mod=readonly -o "$bin" ./cmd/simctl || exit 2
if [ "$1" = --setup ]; then
  "$bin" build -root "$root" -o "$bin.worker" && "$bin" build -root "$root" -race -o "$bin.worker"; code=$?
  rm -f "$bin.worker"
  exit $code
fi
"$bin" check -root "$root" -prop "$1" -tier "$2"
exit $?
