#!/bin/bash
# ./run.sh <ID> [quick|thorough]   or   ./run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=C.UTF-8 MC_REPO="${MC_REPO:-/repo}"
exec /opt/venv/bin/python -m mc.run "$@"
