"""Import the code under test from /repo's current working tree, ignoring stale bytecode."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

# Third-party packages first: their bytecode caches are fine.
import numpy as np  # noqa: E402
import pyvista as pv  # noqa: E402
import scipy.interpolate  # noqa: E402,F401
import scipy.spatial  # noqa: E402,F401
import shapely  # noqa: E402,F401

try:
    import gmsh  # noqa: E402,F401
except Exception:  # pragma: no cover
    pass

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
_prefix = sys.pycache_prefix
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-nopyc-{os.getpid()}-none")
sys.path.insert(0, REPO)

import pvgridder as pvg  # noqa: E402
import pvgridder.core  # noqa: E402,F401
import pvgridder.utils  # noqa: E402,F401

sys.pycache_prefix = _prefix

_where = os.path.realpath(pvg.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError(f"pvgridder imported from {_where}, not from {REPO}")

pv.set_error_output_file(os.devnull) if hasattr(pv, "set_error_output_file") else None
try:
    import vtk

    vtk.vtkObject.GlobalWarningDisplayOff()
except Exception:  # pragma: no cover
    pass

__all__ = ["np", "pv", "pvg"]
