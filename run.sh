#!/bin/bash
# run.sh PROPERTY [quick|thorough]     explore and decide one property
# run.sh --replay FILE                 replay one recorded violation
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
bash "$V/build.sh" || exit 2
export DIJITSO_CACHE_DIR=$V/.build/dijitso MPLCONFIGDIR=$V/.build/mpl
export PYTHONPATH=/opt/vp/plugin:/repo:$V/.build/lib:$V
export HDF5_USE_FILE_LOCKING=FALSE OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -P -m mc.run "$@"
