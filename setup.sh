#!/bin/bash
# nothing to compile: verifies that the interpreter and the repository are importable
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}" MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "import hvd, numpy, scipy, jax, pymoo; print('ok')"
