#!/usr/bin/env python
"""Entry point of every check: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

_ENV = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "VTK_SMP_MAX_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYVISTA_OFF_SCREEN": "true",
    "PYTHONDONTWRITEBYTECODE": "1",
}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in _ENV.items()):
        os.environ.update(_ENV)
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]])

    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, os.path.join(here, "vendor")]

    from harness.runner import main

    sys.exit(main(sys.argv[1:]))
