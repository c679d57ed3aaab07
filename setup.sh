#!/bin/bash
# Nothing to build: the checks import the pure-Python tree in /repo directly.
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import malcolm.core"
