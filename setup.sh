#!/bin/bash
# Nothing to build: check that the interpreter, the libraries and the target are there.
here=$(cd "$(dirname "$0")" && pwd)
repo=${HTTPLINT_REPO:-/repo}
mkdir -p "$here/evidence"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo:$here" exec /opt/venv/bin/python -c '
import brotli, httplint, mon.abnf, mon.drive, mon.fw, mon.gen
print("target:", httplint.__file__)'
