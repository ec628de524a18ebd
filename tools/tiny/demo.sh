#!/bin/bash
# Builds a small program against the crate in the current directory and asserts what its user must see.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo" && sed -i "s#REPO#$repo#" "$tmp/demo/Cargo.toml" || exit 2
cp "$repo/$(cat "$here/demo/lock")" "$tmp/demo/Cargo.lock" || exit 2
cd "$tmp/demo" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
"$tmp/target/debug/demo"
