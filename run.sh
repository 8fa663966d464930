#!/bin/bash
# run.sh <property id> quick|thorough        run one check
# run.sh --replay <replay file>              run the recorded case again
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
export LD_LIBRARY_PATH=/opt/venv/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
export JAX_PLATFORMS=cpu MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_DYNAMIC=FALSE
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="/repo:$here"
scratch="$(mktemp -d /tmp/vsimphox.XXXXXX)" || exit 3
export MPLCONFIGDIR="$scratch" VSCRATCH="$scratch"
trap 'rm -rf -- "$scratch"' EXIT
/opt/venv/bin/python -m harness.main "$@"
