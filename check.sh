#!/bin/bash
# check.sh <property> [args]: runs one check against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data
export ASTROPY_CONFIG_DIR=/opt/vp/astropy_config
export TZ=UTC PGTZ=Etc/GMT-12
export PATH=/opt/vp/pgbin:$PATH
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=${VERIF_DEV_REPO:-/repo}:$PWD
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc.run "$@"
