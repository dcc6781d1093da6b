"""C06 masses never negative, never created; fractions stay fractions"""
from . import weath as W
from .common import *
from pyvc import cint

R = ('range',)


def only(h):
    return lambda B: h(B, what=R)


def whole_run(B):
    """bounded: along whole runs every element's mass and components only go down and stay >= 0; fractions within bounds"""
    from . import modelgen as G
    w = G.build(B, weather=True, uncertain=False)
    if B.choice('sub', [0, 0, 1]):
        w.model.weathering_substeps = B.int('nsub', lo=1, hi=4)
    ymax = w.oil.emulsion_water_fraction_max
    prev, pmb = None, {}
    for step in G.run(w):
        o = step[0]
        now = {i: (m, c) for i, m, c in zip(o['id'].tolist(), o['mass'].tolist(), o['mass_components'])} if 'mass_components' in o else {}
        for i, (m, c) in now.items():
            B.prove('mass-nonneg', m >= 0 and (c >= 0).all(), [m, c])
            if prev and i in prev:
                B.prove('mass-nonincreasing', m <= prev[i][0] * (1 + 1e-9) and (c <= prev[i][1] * (1 + 1e-9)).all(), [m, prev[i][0]])
        prev = now
        for k in ('evaporated', 'natural_dispersion', 'sedimentation', 'skimmed', 'burned', 'chem_dispersed', 'off_maps', 'amount_released', 'beached', 'floating'):
            v = o.mb.get(k, 0.0)
            B.prove('balance-entry-finite-nonneg', np.isfinite(v) and v >= -1e-9, [k, v])
            if k not in ('beached', 'floating'):
                B.prove('cumulative-entry-nondecreasing', v >= pmb.get(k, 0.0) - 1e-9, [k, v, pmb.get(k)])
        pmb = o.mb
        if not len(o):
            continue
        for k, hi in (('frac_water', max(ymax, 0.0)), ('frac_lost', 1.0), ('frac_evap', 1.0), ('frac_coverage', 1.0)):
            if k in o:
                v = o[k]
                B.prove('fraction-in-range', bool(np.isfinite(v).all() and (v >= -1e-9).all() and (v <= hi + 1e-9).all()), [k, v, hi])
        for k in ('density', 'viscosity', 'area', 'fay_area'):
            if k in o:
                v = o[k][o['mass'] > 0]
                B.prove('positive', bool(np.isfinite(v).all() and (v > 0).all()), [k, v])


class One:
    """an array of which only the arbitrary element I is looked at"""
    def __init__(self, B, I, v, what):
        self.B, self.I, self.v, self.what = B, I, v, what

    def arr(self, write=False):
        def rd(i):
            self.B.prove('reads-its-own-element', i == self.I)
            return self.v

        def wr(i, v):
            self.B.prove('writes-only-what-it-owns', write)
            self.B.prove('writes-its-own-element', i == self.I)
            self.v = v
        return cint.Arr(rd, wr)


def emulsify(B):
    """emulsify (Weatherers_c.cpp), any number of elements: water fraction within 0 and the oil's maximum, interfacial area
    within 0 and its maximum and not going down while emulsifying, nothing before the onset, the onset kept"""
    N = B.dim('N', 1)
    fw, ifa, fe = B.array('fw', (N,), lo=0, hi=0.95), B.array('ifa', (N,), lo=0, hi=1e8), B.array('fe', (N,), lo=0, hi=1)
    age = B.array('age', (N,), dtype=np.int32, lo=0, hi=10**7)
    bull = B.array('bull', (N,), lo=-1, hi=10**7)
    k = B.array('k', (N,), lo=0, hi=1e4)
    et, eC = B.choice('onset', [-999., -1., 0., 1.]), B.real('eC', lo=-1, hi=1)
    if et > 0:
        et = B.real('et', lo=0.01, hi=1000)
    Ymax = B.real('Ymax', lo=0.01, hi=0.95)
    dmax, dmin = 1e-5, 1e-6
    Smax = 6. / dmin * (Ymax / (1. - Ymax))
    dt = B.int('dt', lo=1, hi=86400)
    B.assume_forall((N,), lambda i: And(B.at(ifa, i) <= Smax, B.at(bull, i) <= B.at(age, i)))

    def contract(i, old, new):
        (S0, b0, a, f), (Y, S, b) = old, new
        es = et * 3600 if et > 0 else et
        on = (a >= es) if et >= 0 else And(f >= eC, eC >= 0)
        tol = 1e-9
        B.prove('water-fraction-within-its-maximum', And(Y >= 0, Y <= Ymax * (1 + tol)), [Y, Ymax])
        B.prove('interfacial-area-within-its-maximum', And(S >= 0, S <= Smax * (1 + tol)), [S, Smax])
        B.prove('nothing-before-the-onset', Implies(Not(on), And(S == 0, Y == 0, b == b0)), [a, es, f, eC])
        B.prove('emulsion-takes-up-water', Implies(on, S >= S0 * (1 - tol)), [S0, S])
        B.prove('water-fraction-follows-the-area', Implies(S * dmax * (1 - Ymax) < 6 * Ymax * (1 - tol), B.close(Y * (6. + S * dmax), S * dmax)), [Y, S])
        B.prove('full-when-the-area-is', Implies(S * dmax * (1 - Ymax) > 6 * Ymax * (1 + tol), B.close(Y, Ymax)), [Y, S])
        B.prove('onset-remembered-once', And(Or(b == b0, And(b0 < 0, b == a))), [b0, b, a])
    if B.symbolic:
        I = B.int('I', lo=0)
        B.assume(I < N.n)
        g = {n: One(B, I, B.at(v, I), n) for n, v in (('fw', fw), ('ifa', ifa), ('fe', fe), ('age', age), ('bull', bull), ('k', k))}
        it = cint.Interp(B, 'Weatherers_c.cpp', loops={0: cint.EachElement('elements', lambda nm: I if nm == 'i' else None, lambda nm: 0.)})
        old = (g['ifa'].v, g['bull'].v, g['age'].v, g['fe'].v)
        err = it.call('emulsify', N.n, dt, g['fw'].arr(True), g['ifa'].arr(True), g['fe'].arr(), g['age'].arr(), g['bull'].arr(True), g['k'].arr(), et, eC, Smax, Ymax, dmax)
        B.prove('no-error', True if err is None else err == 0)
        contract(I, old, (g['fw'].v, g['ifa'].v, g['bull'].v))
        return
    from gnome.cy_gnome.cy_weatherers import emulsify_oil
    f = [np.array(v, float) for v in (fw, ifa, fe, bull, k)]
    a = np.array(age, np.int32)
    o = [v.copy() for v in f]
    emulsify_oil(dt, f[0], f[1], f[2], a, f[3], f[4], et, eC, Smax, Ymax, dmax)
    B.prove('inputs-kept', np.array_equal(f[2], o[2]) and np.array_equal(f[4], o[4]) and np.array_equal(a, age))
    for i in range(len(a)):
        contract(i, (o[1][i], o[3][i], int(a[i]), o[2][i]), (f[0][i], f[1][i], f[3][i]))


def density(B):
    """recalc_density / recalc_viscosity, any number of elements: an element's density stays above 0 and never above the water's,
    viscosity stays above 0 and water and evaporation only raise it; elements that do not weather at the surface keep their density"""
    from gnome.ops import density as D, viscosity as V
    NC = B.choice('ncomp', [1, 2, 3])
    N, C, mc, a = W.container(B, ('density', 'viscosity', 'oil_density', 'oil_viscosity', 'frac_evap', 'bulltime'), ncomp=NC)
    a['status_codes'] = B.array('st', (N,), dtype=np.int16, choices=[2, 3, 7])
    cd = B.array('cd', (C,), lo=500, hi=1200)
    mf = B.array('mf', (C,), lo=0.01, hi=1)
    rho0, v0 = B.real('rho0', lo=600, hi=1100), B.real('v0', lo=1e-7, hi=1.)
    wrho = B.real('wrho', lo=950, hi=1100)
    water = Obj(get=lambda n, *k: wrho if n == 'density' else 290.)
    sub = Obj(is_weatherable=True, name='oil', num_components=NC, component_density=cd, mass_fraction=mf, density_at_temp=lambda t: rho0, kvis_at_temp=lambda t: v0)
    sc = make_sc(B, a, sub)
    old = W.Snap(a)
    D.recalc_density(sc, water, aggregate=False)
    rho = sc['density']
    B.forall('density-never-above-the-water', (N,), lambda i: Or(B.at(rho, i) == B.at(old.density, i), B.le(B.at(rho, i), wrho)))
    B.forall('density-stays-positive', (N,), lambda i: Or(B.at(rho, i) == B.at(old.density, i), B.lt(0, B.at(rho, i))))
    B.forall('others-keep-their-density', (N,), lambda i: Or((B.at(old.fate_status, i) & 2) == 2, And(B.at(rho, i) == B.at(old.density, i), B.at(sc['oil_density'], i) == B.at(old.oil_density, i))))
    V.recalc_viscosity(sc, water, aggregate=False)
    vis, ov = sc['viscosity'], sc['oil_viscosity']
    B.forall('viscosity-positive-and-not-below-the-fresh-oil', (N,), lambda i: And(B.le(v0, B.at(ov, i)), B.le(B.at(ov, i), B.at(vis, i))))
    B.forall('nothing-else-changes', (N,), lambda i: And(B.at(sc['mass'], i) == B.at(old.mass, i), B.at(sc['frac_water'], i) == B.at(old.frac_water, i)))


HARNESSES = [
    H('density', density, conc=100, functions=['ops.density.recalc_density', 'ops.viscosity.recalc_viscosity'], total_division=True),
    H('emulsify', emulsify, conc=400, functions=['emulsify (Weatherers_c.cpp)', 'cy_weatherers.emulsify_oil']),
    H('whole_run', whole_run, sym=False, conc=60, conc_budget=60, functions=['Model.step', 'all weatherers']),
    H('evaporated_fraction', W.h_evaporated_fraction, functions=['Evaporation.weather_elements'], total_division=True),
    H('evaporation', only(W.h_evaporation), functions=['Evaporation.weather_elements'], total_division=True),
    H('skimmer', only(W.h_skimmer), functions=['Skimmer.weather_elements'], total_division=True),
    H('burn', only(W.h_burn), functions=['Burn.weather_elements'], total_division=True),
    H('chem', only(W.h_chem), functions=['ChemicalDispersion.weather_elements'], total_division=True),
    H('natdisp_DS', only(W.h_natdisp('D&S1988')), functions=['NaturalDispersion.weather_elements', 'NaturalDispersion.disperse_oil_DS'], total_division=True),
    H('natdisp_Li', only(W.h_natdisp('Li2017')), functions=['NaturalDispersion.weather_elements', 'NaturalDispersion.disperse_oil_Li'], sym=False),
]
