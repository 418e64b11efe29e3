#!/bin/bash
# ./run.sh <property id> [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONPATH="$PWD/harness/stubs:$PWD/harness:${VP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 XLA_FLAGS="${XLA_FLAGS:-}"
exec /opt/venv/bin/python -m vp.main "$1"
