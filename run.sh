#!/bin/bash
# run.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR"
T=$(mktemp -d /tmp/verif_run.XXXXXX) || exit 2
export MPLCONFIGDIR="$T/mpl" TMPDIR="$T" HOME="$T"
mkdir -p "$T/mpl"
lc=$(echo "$1" | tr A-Z a-z)
/opt/venv/bin/python "checks/$lc.py" "${2:-quick}"
rc=$?
rm -rf "$T"
exit $rc
