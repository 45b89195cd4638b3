#!/bin/bash
# Warms the build cache; the checks build again from /repo's working tree.
set -e
. "$(dirname "$0")/env.sh"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
CGO_ENABLED=0 build "$tmp/icsverif"
CGO_ENABLED=1 build "$tmp/icsverif-race" -race 2>/dev/null || echo "race detector not available; C25 runs without it"
"$tmp/icsverif" list
