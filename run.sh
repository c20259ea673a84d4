#!/bin/bash
# run.sh <property> [quick|thorough]   - runs one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
repo="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$repo:$repo/mllm-kernel"
export CUDA_VISIBLE_DEVICES=""
cd "$here" || exit 2
exec /opt/mllm-venv/bin/python "$here/checks/$id.py" --tier "$tier"
