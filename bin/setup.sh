#!/bin/bash
# Warms the build cache; every check builds for itself again.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
mkdir -p "$here/.cache/tmp" || exit 1
d=$(mktemp -d "$here/.cache/tmp/setup.XXXXXX") || exit 1
trap '/bin/rm -rf "$d"' EXIT
"$here/bin/build.sh" "${SIM_REPO:-/repo}" "$d" C10
