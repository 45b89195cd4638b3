#!/bin/bash
# replay.sh FILE: runs one stored case again, without any generator.
file=$(readlink -f "$1")
. "$(dirname "$0")/env.sh"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
if grep -q '"property": "C25"' "$file"; then race=-race; cgo=1; else race=; cgo=0; fi
CGO_ENABLED=$cgo build "$tmp/icsverif" $race || exit 2
tz=$(sed -n 's/^ "tz": "\(.*\)"$/\1/p' "$file")
TZ=${tz:-UTC} "$tmp/icsverif" replay "$file"
