#!/bin/bash
# usage: run.sh <PROPERTY_ID> [--tier quick|thorough] [--replay FILE] [--sub NAME]
# Decides one property against the working tree in $VERIF_REPO (default /repo).
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}"
export PATH="/opt/venv/bin:$PATH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export TORCH_CPP_LOG_LEVEL=ERROR GLOO_SOCKET_IFNAME=lo OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg HF_HUB_OFFLINE=1
unset PYTHONPATH
bash "$here/setup.sh" >/dev/null || { echo "harness: setup failed"; exit 2; }
exec /opt/venv/bin/python "$here/pbt/main.py" "$@"
