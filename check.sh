#!/bin/bash
# check.sh ID [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one property's monitor against the working tree of /repo (HTTPLINT_REPO to override).
here=$(cd "$(dirname "$0")" && pwd)
repo=${HTTPLINT_REPO:-/repo}
py=/opt/venv/bin/python
# The interpreter never reads or writes bytecode in the tree: what runs is the source as it is now.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONHASHSEED=0 PYTHONPATH="$repo:$here" LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONHOME PYTHONOPTIMIZE PYTHONWARNINGS
ulimit -c 0
cd "$here" || exit 3
exec "$py" -m mon "$@"
