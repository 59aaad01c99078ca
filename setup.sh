#!/bin/bash
# Nothing to compile: the explorers are plain Python and import the library from /repo on every run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, pandas, scipy, sklearn" || exit 1
