#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]   (run in /verif; VERIF_SEED, VERIF_TIER from the environment)
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu MPLBACKEND=Agg XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
cd "$(dirname "$(readlink -f "$0")")"
exec /opt/venv/bin/python -B -W ignore main.py "$@"
