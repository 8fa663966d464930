#!/bin/bash
# Checks that what the checks run is there: the interpreter, the libraries and the code under test.
cd "$(dirname "$0")" || exit 1
export LD_LIBRARY_PATH=/opt/venv/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH} JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec env PYTHONPATH=/repo:"$PWD" /opt/venv/bin/python -W ignore -c 'import simphox, jax, haiku, scipy; from harness import core, meshes; print("ready")'
