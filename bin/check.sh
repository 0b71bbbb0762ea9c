#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]
# Builds the simulator from /repo's current working tree, with the yield points
# in a build overlay, and checks PROPERTY; or replays one recorded violation.
# Exit 0: held; 1: VIOLATION line printed; 3: the check itself failed.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
prop=${1:?property}; shift
replay=""
[ "${1:-}" = --replay ] && replay=$(readlink -f "${2:?file}")
repo=${SIM_REPO:-/repo}
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
. "$here/bin/env.sh"
mkdir -p "$here/.cache/tmp" || exit 3
scratch=$(mktemp -d "$here/.cache/tmp/$prop.XXXXXX") || exit 3
trap '/bin/rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM
"$here/bin/build.sh" "$repo" "$scratch" "$prop" >"$scratch/build.log" 2>&1 || { echo "check $prop: the simulation build failed" >&2; tail -50 "$scratch/build.log" >&2; exit 3; }
extra=()
[ -x "$scratch/simrace" ] && extra=(-race "$scratch/simrace")
mkdir -p "$scratch/run"
if [ -n "$replay" ]; then
	"$scratch/sim" replay -scratch "$scratch/run" "${extra[@]}" "$replay"
	exit $?
fi
time=35s
case $prop in C10) time=45s; extra+=(-perproc 40);; C08|C17) extra+=(-perproc 100);; C03|C12|C20|C23) time=45s;; esac
[ "$tier" = thorough ] && time=540s
"$scratch/sim" check -prop "$prop" -tier "$tier" -seed "$seed" -time "${SIM_TIME:-$time}" -workers "${SIM_WORKERS:-8}" \
	-scratch "$scratch/run" -replays "$here/replays" -evidence "$here/evidence/$prop.json" -known "$here/known_findings.txt" "${extra[@]}"
