#!/bin/bash
# Compiles the engine once, so that a build problem shows up here.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
cd "$here/engine"
GOFLAGS=-mod=mod go build -buildvcs=false -o /dev/null .
