#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:${MC_REPO:-/repo}/src_py" PYTHONWARNINGS=ignore
case "$1" in C0[123]) export PYTHONMALLOC=debug ;; esac  # native code
exec /opt/venv/bin/python -m mc.check "$@"
