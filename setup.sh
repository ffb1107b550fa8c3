#!/bin/sh
# Nothing to build: checks that the interpreter and the code under test can be loaded.
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/evidence" "$D/replays"
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "import sys; sys.path[:0] = ['/repo', '$D']; import pyNTM, networkx; from pbt import registry; print(len(registry.load()), 'checks')"
