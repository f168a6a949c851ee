#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [engine flags]
# Builds the symbolic executor and decides one property on /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
prop="$1"; tier="${2:-quick}"; shift; shift || true
bin="$(mktemp -d /tmp/vdisc-engine-XXXXXX)"
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/engine" && GOFLAGS=-mod=mod go build -buildvcs=false -o "$bin/engine" .); then
  echo "error: the engine does not build"; exit 3
fi
"$bin/engine" -prop "$prop" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here" "$@"
