# Environment for the checks (sourced).
export VERIF_REPO=${VERIF_REPO:-/repo}
export SETUPTOOLS_SCM_PRETEND_VERSION=0.15.2 PIP_NO_INDEX=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$VERIF_REPO/src"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
PY=/opt/venv/bin/python
