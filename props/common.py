"""Shared contract vocabulary: containers of symbolic element arrays, environment stand-ins."""
import numpy as np
from pyvc.runner import H
from pyvc.terms import And, Or, Not, Implies, Ite, Sym, SymBool


def make_sc(B, arrays, substance, uncertain=False):
    """a real SpillContainer holding the given arrays (no spills)"""
    from gnome.spill_container import SpillContainer, FateDataView
    sc = SpillContainer(uncertain=uncertain)
    sc._data_arrays = dict(arrays)
    sc._array_types = {k: None for k in arrays}
    sc._fate_data_view = FateDataView()
    sc.substance = substance
    sc.mass_balance = {}
    return sc


def td(B, x):
    """x seconds as a timedelta"""
    if B.symbolic and isinstance(x, Sym):
        from pyvc.shims import SymTimedelta
        from pyvc import terms as T
        return SymTimedelta(T.real(x.t))
    import datetime
    return datetime.timedelta(seconds=x)


def npx(B):
    """numpy as the code under test sees it"""
    if B.symbolic:
        from pyvc.arrays import NP
        return NP
    return np


def dim_of(B, n):
    if B.symbolic and isinstance(n, Sym):
        from pyvc.arrays import _dim_of
        return _dim_of(n)
    return n


def poke(obj, **state):
    """put obj into the given private state; undecided (not an alarm) when the code no longer keeps that state"""
    from pyvc.terms import Unsupported
    for k, v in state.items():
        if not hasattr(obj, k):
            raise Unsupported('%s has no %s' % (type(obj).__name__, k))
        setattr(obj, k, v)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def _import_all():
    import importlib
    for m in ('gnome.model', 'gnome.movers', 'gnome.weatherers', 'gnome.environment', 'gnome.spills', 'gnome.maps',
              'gnome.outputters', 'gnome.utilities.projections', 'gnome.utilities.cache', 'gnome.utilities.rand',
              'gnome.utilities.transforms', 'gnome.maps.tideflat_map', 'gnome.utilities.geometry.BBox',
              'gnome.utilities.geometry.polygons', 'gnome.utilities.weathering', 'gnome.ops'):
        importlib.import_module(m)


_import_all()
