#!/bin/bash
# Builds the simulators (offline) from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")"
. ./env.sh
build sim
build cranksim
mkdir -p evidence replays
