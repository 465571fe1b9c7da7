#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -m symex.run "$@" 2> >(grep -v -E 'cuda_(fft|dnn|blas)|^WARNING: All log messages|os.fork' >&2)
