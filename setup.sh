#!/bin/bash
# Nothing is compiled: the checks are Python and run the sources of /repo directly.  Fail early if the tools are absent.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, shapely, matplotlib"
