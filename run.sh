#!/bin/bash
# run.sh <property-id> [quick|thorough]
# Runs one property check against /repo's current working tree.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SCRATCH="$(mktemp -d /tmp/vp_${ID}_XXXXXX)"
trap 'rm -rf "$SCRATCH"' EXIT
export VP_ROOT="$HERE" VP_SCRATCH="$SCRATCH" VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export VP_REPO="${VP_REPO:-/repo}"
export MPLANG_DATA_ROOT="$SCRATCH/data" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 TF_CPP_MIN_LOG_LEVEL=3 XLA_FLAGS="--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true" OMP_NUM_THREADS=2
export PYTHONPATH="$HERE:$HERE/stubs"
cd "$SCRATCH" || exit 2
timeout -k 10 "${VP_TIMEOUT:-3000}" /opt/venv/bin/python -B -m vp.main "$ID" --tier "$TIER" "${@:3}"
rc=$?
exit $rc
