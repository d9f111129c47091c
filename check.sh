#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough|replay FILE|one SEED|selftest N]
# Runs the simulation of one property against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/sim.XXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM HUP
gcc -O1 -shared -fPIC -o "$scratch/simfs.so" "$here/sim/simfs.c" -ldl || exit 3
export SIM_SCRATCH="$scratch/runs" SIM_FS="$scratch/simfs.so"
mkdir -p "$SIM_SCRATCH"
export PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONPATH="$here/sim:${SIM_REPO:-/repo}"
export LANG=C.UTF-8 TZ=UTC PYTHONUTF8=1
LD_PRELOAD="$scratch/simfs.so" /opt/venv/bin/python ${SIM_JIT:---jit off} -W ignore "$here/sim/main.py" "$@"
