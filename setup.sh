#!/bin/bash
# pure Python: nothing to compile; verify that the interpreter, the library and the harness import
cd "$(dirname "$0")" || exit 2
scratch="$(mktemp -d /tmp/vmon.XXXXXX)"; trap 'rm -rf -- "$scratch"' EXIT
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" PYTHONPATH=/repo/src:. /opt/venv/bin/python -c "import actuarialmath, vmon.core, vmon.ref; print('ok')"
