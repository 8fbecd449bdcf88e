#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
D="$(cd "$(dirname "$0")" && pwd)"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export PYTHONHASHSEED="$(( VERIF_SEED % 1000 ))" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D/lib:$D/checks:/repo/src"
export MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$D" || exit 2
exec /opt/venv/bin/python "$D/checks/run.py" "$1"
