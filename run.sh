#!/bin/bash
# Usage: bash run.sh <PROPERTY> [quick|thorough]     run one check
#        bash run.sh <PROPERTY> replay <artefact>    replay one violation artefact
# Runs against the working tree of /repo (override: PD_REPO=/some/copy).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
exec /opt/venv/bin/python -W ignore main.py "$@"
