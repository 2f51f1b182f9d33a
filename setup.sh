#!/bin/bash
# Nothing to build: every check loads /repo's sources itself.  This only
# verifies that the tools the checks need are present.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, cvc5'
test -x /opt/venv/bin/python
echo ok
