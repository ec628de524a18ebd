#!/bin/bash
# bash check.sh <property>: rebuilds the simulator against /repo's working tree and searches for a violation.
# Exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: the check could not run.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p "$SIM_ROOT/evidence" "$SIM_ROOT/replays"
c=$(crate_of "$1")
build "$c" || { echo "the simulator does not build against /repo" >&2; exit 2; }
exec "./$c/target/release/$c" check "$1"
