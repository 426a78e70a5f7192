#!/bin/bash
# Usage: run.sh <property id> [quick|thorough]      (tier defaults to $VERIF_TIER, then quick)
#        run.sh replay <replay file>
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
# never read byte code that may belong to another version of the tree
scratch="$(mktemp -d /tmp/mcverif.XXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONPYCACHEPREFIX="$scratch/pyc" MC_SCRATCH="$scratch" MPLCONFIGDIR="$scratch" HOME="$scratch"
if [ "$1" = replay ]; then
  /opt/venv/bin/python -B -m mc.run --replay "$2"
else
  [ -n "$2" ] && export VERIF_TIER="$2"
  /opt/venv/bin/python -B -m mc.run "$1"
fi
