#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--seed N] [--only scenario:idx]
# Runs the monitors of one property on the code in /repo's working tree (pure Python: nothing to compile).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
scratch="$(mktemp -d /tmp/vhenv.XXXXXX)"
trap 'rm -rf -- "${scratch:?}"' EXIT
export PYTHONPATH="$here:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" HOME="$scratch" TMPDIR="$scratch" CUDA_VISIBLE_DEVICES= \
  OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore \
  PATH="/opt/venv/bin:$PATH"
cd "$scratch" || exit 2
/opt/venv/bin/python -m vh.main "$prop" "$tier" "$@"
