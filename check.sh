#!/bin/bash
# usage: check.sh PROPERTY-ID [--tier quick|thorough] [--replay FILE]
# Runs one property check against the working tree of /repo (override: VERIF_REPO).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d /tmp/sqpdfo-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
# hypothesis is installed for the tooling interpreter; the repository needs the numpy of
# /opt/venv.  Both are CPython 3.12, so link the pure parts of hypothesis next to each other.
site=/opt/veriftools/pyvenv/lib/python3.12/site-packages
mkdir "$work/hyp" "$work/pyc" "$work/cwd"
for m in hypothesis attr attrs sortedcontainers _hypothesis_ftz_detector.py _hypothesis_globals.py; do
    [ -e "$site/$m" ] || { echo "missing $site/$m"; exit 2; }
    ln -s "$site/$m" "$work/hyp/$m"
done
export PYTHONPATH="$repo:$here:$work/hyp"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem OMP_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} VERIF_HOME="$here" VERIF_REPO="$repo" VERIF_WORK="$work"
cd "$work/cwd" || exit 2
/opt/venv/bin/python -m vf.run "$@"
rc=$?
exit $rc
