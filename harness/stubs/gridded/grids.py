class _G:
    @classmethod
    def from_netCDF(cls, *a, **k):
        raise NotImplementedError('gridded stand-in')


class Grid_U(_G): pass
class Grid_S(_G): pass
class Grid_R(_G): pass
class Grid(_G): pass
