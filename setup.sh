#!/bin/bash
# nothing to build: the checks import the package from /repo's working tree
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import pv.core, pointpats"
