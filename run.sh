#!/bin/bash
# Fixed environment for every check: one numeric code path, no user site, no
# bytecode, stable hashing and (where the kernel allows) stable addresses.
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell MKL_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
py=/opt/venv/bin/python
if setarch -R true 2>/dev/null; then exec setarch -R "$py" "$here/run.py" "$@"; fi
exec "$py" "$here/run.py" "$@"
