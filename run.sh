#!/bin/bash
# run.sh Cxx [--tier quick|thorough] [--sub NAME] [--replay FILE]
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PY=/opt/venv/bin/python
export EIGEN3_PATH=/usr/include/eigen3 PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore PYTHONPATH="$here:/repo" \
  GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
[ -d "$here/.deps/hypothesis" ] || bash "$here/setup.sh" >/dev/null || exit 2
# the Cython parts are rebuilt from the current tree (a no-op when unchanged)
if [ -z "${VERIF_SKIP_BUILD:-}" ]; then
  (cd /repo && "$PY" /opt/vp/lib/build_ext.py) >/tmp/verif_build.$$ 2>&1 || {
    cat /tmp/verif_build.$$ >&2; rm -f /tmp/verif_build.$$; echo "build failed" >&2; exit 2; }
  rm -f /tmp/verif_build.$$
fi
cd "$here" && exec "$PY" -m vlib.run "$@"
