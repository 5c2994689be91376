#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 PYGAME_HIDE_SUPPORT_PROMPT=1 SDL_VIDEODRIVER=dummy LC_ALL=C.UTF-8 LANG=C.UTF-8
exec /opt/venv/bin/python -m mc.main "$1" "${2:-${VERIF_TIER:-quick}}"
