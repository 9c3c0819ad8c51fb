#!/bin/bash
# Nothing has to be built in advance: every check compiles the harness against /repo itself.
# This warms the Go build cache (with and without the race detector) and parses the specification.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vt import core
ws = core.Workspace()
try:
    core.build(ws)
    core.build(ws, race=True)
    core.dump_spec(ws)
finally:
    ws.close()
P
