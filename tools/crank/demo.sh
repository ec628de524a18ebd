#!/bin/bash
# Runs a unit-level check inside a scratch copy of the workspace: the crank's own functions on crafted queues.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo" && tar -C "$repo" --exclude=./target --exclude=./dex/target --exclude=./.git -cf - . | tar -C "$tmp/repo" -xf - || exit 2
cp "$here/demo.rs" "$tmp/repo/dex/crank/src/planted_demo.rs" || exit 2
printf '\n#[cfg(test)]\nmod planted_demo;\n' >>"$tmp/repo/dex/crank/src/lib.rs"
# The dependencies built for the repository's own tests are reused.
cp -a --reflink=auto "$repo/target" "$tmp/target" 2>/dev/null
cd "$tmp/repo" && CARGO_TARGET_DIR="$tmp/target" cargo test --workspace --offline --no-run >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
CARGO_TARGET_DIR="$tmp/target" timeout 120 cargo test --workspace --offline planted_demo >"$tmp/log" 2>&1
rc=$?
grep -q "test planted_demo::.* ok\|test planted_demo::.* FAILED" "$tmp/log" || { tail -20 "$tmp/log"; exit 4; }
[ $rc = 0 ] && echo holds || { echo broken; grep -m1 -A2 panicked "$tmp/log"; exit 1; }
