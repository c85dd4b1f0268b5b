#!/bin/bash
# Everything is committed; only check that the pieces are importable offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/repo:vendor /opt/venv/bin/python -c "import hypothesis, mlpaper.classification, mlpaper.regression; print('ok', hypothesis.__version__)"
