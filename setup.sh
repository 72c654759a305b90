#!/bin/sh
# Builds everything once; checks rebuild what changed.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec python3 lib/props.py --setup
