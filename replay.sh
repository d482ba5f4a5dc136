#!/bin/bash
# usage: replay.sh FILE
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
root=$(cd "$(dirname "$0")" && pwd)
file=$(realpath -- "$1") || exit 2
cd "$root/sim" || exit 2
mkdir -p "$root/.build" || exit 2
bin=$(mktemp "$root/.build/simctl.XXXXXX") || exit 2
trap 'rm -f "$bin"' EXIT
go build -mod=readonly -o "$bin" ./cmd/simctl || exit 2
"$bin" replay -root "$root" "$file"
exit $?
