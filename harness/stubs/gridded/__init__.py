"""Stand-in for the PyPI package ``gridded`` (>=0.7.5,<0.8), which cannot be
installed in this sandbox.  It exists only so that the modules of /repo that
import it can be imported and executed; no property is decided by this code
except through the assumed contracts written down in DESIGN.md (time axis:
``index_of`` is searchsorted-left, ``interp_alpha`` is the linear fraction)."""
from . import time, grids, depth, utilities
from .variable import Variable, VectorVariable
__version__ = '0.7.5'
