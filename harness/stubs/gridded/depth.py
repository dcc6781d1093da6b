class DepthBase:
    _default_component_types = {}
class L_Depth(DepthBase): pass
class S_Depth(DepthBase): pass
class ROMS_Depth(DepthBase): pass
class FVCOM_Depth(DepthBase): pass
class Depth: pass
