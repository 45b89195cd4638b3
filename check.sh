#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
# Exit 0: held on everything explored. Exit 1: violated. Else: check error.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
. "$(dirname "$0")/env.sh"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
bin=$tmp/icsverif
if [ "$id" = C25 ] && CGO_ENABLED=1 build "$bin" -race >"$tmp/race.log" 2>&1; then
	:
elif ! CGO_ENABLED=0 build "$bin" >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "CHECK ERROR: harness does not build against /repo" >&2
	exit 2
fi
cap=0
[ "$tier" = thorough ] && cap=${VERIF_CAP:-8m}
mkdir "$tmp/work" || exit 3
fuzz=
if [ "$tier" = thorough ]; then
	case $id in C05|C06|C24)
		if ! (cd "$here/harness" && CGO_ENABLED=0 go test -c -fuzz=FuzzText -o "$tmp/fuzz.test" .) >"$tmp/fuzz.log" 2>&1; then
			cat "$tmp/fuzz.log" >&2
			exit 2
		fi
		fuzz="-fuzz $tmp/fuzz.test -fuzztime ${VERIF_FUZZTIME:-3m}" ;;
	esac
fi
"$bin" run -prop "$id" -tier "$tier" -seed "$seed" -cap "$cap" -scratch "$tmp/work" -evidence "$here/evidence" -known "$here/known-findings.txt" $fuzz ${VERIF_ARGS:-}
rc=$?
case $rc in 0|1) exit $rc ;; esac
exit 3
