#!/bin/bash
# Nothing to build: GIRTH is pure Python and is imported from /repo's working
# tree at every run.  This only checks that the interpreter and modules exist.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import numpy, scipy, sys; assert sys.version_info >= (3, 12)' || exit 1
mkdir -p evidence
echo ready
