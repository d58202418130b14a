#!/bin/bash
# bash run.sh PID [--tier quick|thorough] [--seed N] [--replay FILE]   (VERIF_TIER / VERIF_SEED are the defaults)
# Runs one runtime-monitoring check against the working tree of /repo.
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
SCRATCH=$(mktemp -d /tmp/verif-run.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
chmod 777 "$SCRATCH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" MPLCONFIGDIR="$SCRATCH/mpl"
export VERIF_HOME="$HERE" VERIF_SCRATCH="$SCRATCH"
mkdir -p "$SCRATCH/mpl" "$SCRATCH/home"; chmod 777 "$SCRATCH/mpl" "$SCRATCH/home"
printf 'workspace: %s\n' "$SCRATCH/workspace" > "$SCRATCH/home/.pygmofwork"; chmod 666 "$SCRATCH/home/.pygmofwork"
export HOME="$SCRATCH/home"
cd "$HERE" || exit 2
/opt/venv/bin/python -m harness.main "$@"
