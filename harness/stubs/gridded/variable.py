class Variable:
    _default_component_types = {}
    @classmethod
    def from_netCDF(cls, *a, **k):
        raise NotImplementedError('gridded stand-in')
class VectorVariable:
    _default_component_types = {}
    @classmethod
    def from_netCDF(cls, *a, **k):
        raise NotImplementedError('gridded stand-in')
