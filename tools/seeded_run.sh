#!/bin/bash
# seeded_run.sh [id...]: run each planted bug's property check against a scratch copy of /repo with the bug applied.
# (By hand only: no registered check reads seeded/.)
cd "$(dirname "$0")/.." || exit 2
V=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  p=$(/usr/bin/python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  cp -a /repo "$W/$b" && git -C "$W/$b" apply "$V/seeded/$b/patch.diff" || { echo "$b $p DOES-NOT-APPLY"; continue; }
  VERIF_REPO="$W/$b" timeout 900 /opt/venv/bin/python run.py "$p" --tier quick >"$W/$b.out" 2>&1; rc=$?
  echo "$b $p rc=$rc $(grep -m1 -E 'VIOLATION|sub=' "$W/$b.out" | cut -c1-150)"
  rm -rf "${W:?}/$b"
done
