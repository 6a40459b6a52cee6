#!/bin/bash
# nothing to build: the checks import the code from /repo's working tree. Only makes sure both interpreters work.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3-vt -c "import hypothesis" || exit 1
/opt/venv/bin/python -c "import numpy, pandas, scipy, networkx" || exit 1
exit 0
