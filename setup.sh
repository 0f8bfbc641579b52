#!/bin/bash
# Nothing to build: the monitors are Python and import the code under test from /repo.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export DIJITSO_CACHE_DIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf "$DIJITSO_CACHE_DIR"' EXIT
PYTHONPATH=/repo /opt/venv/bin/python -B -W ignore -c "import dolfin, xii, numpy, scipy, petsc4py; print('ok')"
