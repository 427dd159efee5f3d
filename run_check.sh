#!/bin/bash
# usage: run_check.sh PNN [quick|thorough] [extra args]   (seed: $VERIF_SEED)
cd "$(dirname "$0")" || exit 2
pid=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
       OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -W ignore -c 'import sys; from harness.runner import main; sys.exit(main(sys.argv[1:]))' "$pid" --tier "$tier" "$@"
