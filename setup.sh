#!/bin/bash
# Nothing to build: the checks import /repo as it is. Make sure that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from pbt import engine
print('hypothesis', engine.hypothesis.__version__)
"
