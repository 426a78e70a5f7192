#!/bin/bash
# Nothing is compiled: the explorer is Python and drives /repo's working tree directly.
# Check that the interpreter and the code under test can be loaded.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import mc.core, mc.ref, mc.repo; mc.repo.load(); print('setup ok')"
