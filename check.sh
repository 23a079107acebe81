#!/bin/bash
# usage: check.sh <property> [--thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m hov.check "$@"
