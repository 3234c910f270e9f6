#!/bin/bash
# nothing to compile: the checks import /repo's working tree directly; verify that they can
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
export HOME=/root MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path[:0] = ['mc', '/repo']
import core, falco; print('ok', falco.__file__)"
