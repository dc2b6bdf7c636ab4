#!/bin/sh
# Nothing to build ahead of time: every check generates its proof units and builds its harness from /repo's current source.
set -e
cd "$(dirname "$0")"
command -v verus >/dev/null
python3 -c "import vx.check"
mkdir -p evidence replays
