#!/bin/bash
# Usage: run.sh <property-id> [--tier quick|thorough] [--replay FILE]
# Runs the check of one property against /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
source /opt/vp/env.sh
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXXXX")" || exit 3
trap 'rm -rf -- "${scratch}"' EXIT
mkdir -p "${scratch}/theano" "${scratch}/tmp"
# Theano evaluates its graphs with NumPy instead of generated C code (no
# compilation, no lock, no cache shared with the test suite).
export THEANO_FLAGS="compiledir=${scratch}/theano,device=cpu,cxx=,mode=FAST_COMPILE,floatX=float64,optimizer_excluding=AbstractConvCheck"
export PYTHONWARNINGS=ignore
export TMPDIR="${scratch}/tmp"
export PYTHONPATH="${here}:${VH_REPO:-/repo}"
export VH_SCRATCH="${scratch}"
cd "${here}" || exit 3
timeout -k 10 "${VH_TIMEOUT:-3000}" /opt/venv/bin/python -m vh.main "$@"
exit $?
