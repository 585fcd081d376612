#!/bin/bash
# Builds the analyzer from /verif/analyzer (fast when cached) and decides one property on /repo's current source.
# usage: check.sh <property>   |   check.sh --build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off
bin="$here/bin/willowcheck"
mkdir -p "$here/bin" "$here/evidence"
tmp="$(mktemp "$here/bin/.build.XXXXXX")"
if ! (cd "$here/analyzer" && go build -o "$tmp" .) ; then
  echo "the analyzer does not build"; rm -f "$tmp"; exit 2
fi
mv -f "$tmp" "$bin"
[ "${1:-}" = "--build" ] && exit 0
export GOFLAGS=-mod=readonly
exec "$bin" -verif "$here" -property "$1"
