#!/bin/bash
# usage: build.sh REPO SCRATCH PROPERTY...: builds SCRATCH/sim (and simrace for C10)
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
repo=$1; d=$2; shift 2
. "$here/bin/env.sh"
cp -r "$here/sim/harness" "$d/h"
cp -r "$here/sim/instr" "$d/instrsrc"
if [ "$repo" != /repo ]; then sed -i "s#=> /repo#=> $repo#" "$d/h/go.mod"; fi
(cd "$d/instrsrc" && go build -o "$d/instr" .)
(cd "$d" && GOFLAGS=-mod=readonly "$d/instr" -repo "$repo" -out "$d/ov" -hook "$here/sim/hook" -harness "$d/h")
cd "$d/h"
export GOEXPERIMENT=norandomizedheapbase64
go build -overlay "$d/ov/overlay.json" -o "$d/sim" .
case " $* " in *" C10 "*) go build -race -overlay "$d/ov/overlay.json" -o "$d/simrace" .;; esac
