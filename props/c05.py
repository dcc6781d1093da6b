"""C05 weathering mass conservation"""
from . import weath as W
from .common import *


TAKEN = ('evaporated', 'natural_dispersion', 'sedimentation', 'dissolution', 'skimmed', 'burned', 'chem_dispersed', 'bio_degradation', 'off_maps')


def whole_run(B):
    """bounded: over whole runs, released mass = mass still in the elements + every loss entry of the balance"""
    from . import modelgen as G
    w = G.build(B, weather=True, uncertain=False)
    for step in G.run(w):
        for o in step:
            tot = o['mass'].sum() + sum(o.mb.get(k, 0.0) for k in TAKEN)
            rel = o.mb.get('amount_released', 0.0)
            B.prove('released-mass-is-accounted-for', abs(tot - rel) <= 1e-5 * max(rel, 1.0), [tot, rel, {k: o.mb.get(k) for k in TAKEN}])
            if len(o) and 'mass_components' in o:
                B.prove('mass-is-sum-of-components', np.allclose(o['mass'], o['mass_components'].sum(1), rtol=1e-5, atol=1e-9), [o['mass'], o['mass_components'].sum(1), o['fate_status']])


HARNESSES = [
    H('whole_run', whole_run, sym=False, conc=60, conc_budget=60, functions=['Model.step', 'Model.weather_elements', 'aggregate', 'GnomeMap._set_off_map_status']),
    H('evaporation', W.h_evaporation, functions=['Evaporation.weather_elements'], total_division=True),
    H('skimmer', W.h_skimmer, functions=['Skimmer.weather_elements'], total_division=True),
    H('burn', W.h_burn, functions=['Burn.weather_elements'], total_division=True),
    H('chem', W.h_chem, functions=['ChemicalDispersion.weather_elements'], total_division=True),
    H('natdisp_DS', W.h_natdisp('D&S1988'), functions=['NaturalDispersion.weather_elements', 'NaturalDispersion.disperse_oil_DS'], total_division=True),
    H('natdisp_Li', W.h_natdisp('Li2017'), functions=['NaturalDispersion.weather_elements', 'NaturalDispersion.disperse_oil_Li'], sym=False),
]
