# Sourced by the other scripts. Everything is built offline from /repo's
# working tree; nothing is written outside a scratch directory, the Go build
# cache and /verif/evidence.
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export PATH=$PATH:/usr/local/go/bin
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -z "${GOCACHE:-}" ]; then
	GOCACHE=${HOME:-/root}/.cache/go-build
	mkdir -p "$GOCACHE" 2>/dev/null
	if ! [ -w "$GOCACHE" ]; then GOCACHE=$here/.gocache; mkdir -p "$GOCACHE"; fi
fi
export GOCACHE

# build OUT [extra go flags]: builds the harness against /repo
build() {
	local out=$1
	shift
	(cd "$here/harness" && go build "$@" -o "$out" .)
}
