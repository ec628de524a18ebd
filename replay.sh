#!/bin/bash
# bash replay.sh <replay file>: re-executes a recorded run; prints whether the same violation appears.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. ./env.sh
c=$(crate_of "$f")
build "$c" || exit 2
exec "./$c/target/release/$c" replay "$f"
