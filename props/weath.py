"""Contracts of the weathering processes: one driver, one case per weatherer."""
import datetime
from .common import *

T0 = datetime.datetime(2020, 1, 1)
FATES = [1, 2, 4, 8, 10, 16, 32]          # non_weather, surface, subsurface, skim, skim|surface, burn, disperse


def container(B, extra=(), fates=FATES, ncomp='sym', release_mass=False):
    """requires: arrays aligned, 0 <= components, mass = row sum of components (the container invariant)"""
    N = B.dim('N', 1)
    C = B.dim('NC', 1, conc=3) if ncomp == 'sym' else ncomp
    mc = B.array('mc', (N, C), lo=0, hi=1000)
    a = dict(mass=mc.sum(1), mass_components=mc,
             init_mass=B.array('init_mass', (N,), lo=1, hi=5000),
             positions=B.array('pos', (N, 3)),
             fate_status=B.array('fate', (N,), dtype=np.uint8, choices=fates),
             frac_water=B.array('fw', (N,), lo=0, hi=0.9))
    spec = dict(
        area=lambda: B.array('area', (N,), lo=0.1, hi=1e6),
        fay_area=lambda: B.array('fay_area', (N,), lo=0.1, hi=1e6),
        vol_frac_le_st=lambda: B.array('vf', (N,), lo=0.01, hi=1),
        evap_decay_constant=lambda: B.array('edc', (N, C), lo=-1, hi=0),
        frac_lost=lambda: B.array('fl', (N,), lo=0, hi=1), frac_evap=lambda: B.array('fe', (N,), lo=0, hi=1),
        density=lambda: B.array('rho', (N,), lo=700, hi=999), viscosity=lambda: B.array('visc', (N,), lo=1e-6, hi=0.1),
        droplet_avg_size=lambda: B.array('das', (N,), lo=0, hi=1e-2),
        yield_factor=lambda: B.array('yf', (N,), lo=0, hi=1),
        partition_coeff=lambda: B.array('pc', (N,), lo=0, hi=1e6),
        age=lambda: B.array('age', (N,), dtype=np.int32, lo=0, hi=10**6),
        bulltime=lambda: B.array('bull', (N,), lo=-1, hi=10**6),
        interfacial_area=lambda: B.array('ifa', (N,), lo=0, hi=1e6),
        oil_density=lambda: B.array('orho', (N,), lo=700, hi=999), oil_viscosity=lambda: B.array('ovisc', (N,), lo=1e-6, hi=0.1),
        spill_num=lambda: B.array('spn', (N,), dtype=np.uint16, choices=[0, 1]),
    )
    for k in extra:
        a[k] = spec[k]()
    return N, C, mc, a


def fate_ok(B, f, bit):
    """element's fate selects the weatherer's view"""
    return (f & bit) == bit


class Snap:
    def __init__(self, a):
        self.__dict__.update({k: v.copy() for k, v in a.items()})


def ensures(B, sc, N, C, old, keys, before, bit, what=('balance', 'range', 'frame')):
    """postcondition shared by every mass-removing weatherer"""
    mc = sc['mass_components']
    if 'range' in what:
        B.forall('components-nonneg-nonincreasing', (N, C),
                 lambda i, j: And(B.le(0, B.at(mc, i, j)), B.le(B.at(mc, i, j), B.at(old.mass_components, i, j))))
    if 'frame' in what:
        B.forall('ineligible-elements-untouched', (N, C), lambda i, j: Or(
            And(fate_ok(B, B.at(old.fate_status, i), bit), B.lt(0, B.at(old.mass, i))),
            B.at(mc, i, j) == B.at(old.mass_components, i, j)))
        B.forall('ineligible-mass-untouched', (N,), lambda i: Or(
            And(fate_ok(B, B.at(old.fate_status, i), bit), B.lt(0, B.at(old.mass, i))),
            B.at(sc['mass'], i) == B.at(old.mass, i)))
    if 'balance' in what:
        new = mc.sum(1)
        B.forall_sum_eq('mass-is-sum-of-components', (N,), lambda i: (B.at(sc['mass'], i), B.at(new, i)))
        d = 0
        for k in keys:
            d = d + (sc.mass_balance[k] - before[k])
        B.sum_eq('lost-mass-equals-balance-increment', d, old.mass_components.sum() - mc.sum())


def balances(B, sc, keys):
    out = {}
    for k in keys:
        out[k] = B.real('mb_' + k, lo=0, hi=1e6)
        sc.mass_balance[k] = out[k]
    return out


def substance(B, C, **kw):
    d = dict(is_weatherable=True, name='oil', standard_density=B.real('std_rho', lo=700, hi=999))
    d.update(kw)
    return Obj(**d)


def window(B, dt):
    """model_time and an active range that overlaps the step"""
    mt = B.datetime('model_time', whole=True)
    a = B.timedelta('start_off', lo=-10**6, hi=10**6, whole=True)
    L = B.timedelta('active_len', lo=1, hi=10**6, whole=True)
    return mt, mt + a, mt + a + L


def h_evaporation(B, what=('balance', 'range', 'frame')):
    from gnome.weatherers import Evaporation
    N, C, mc, a = container(B, ('area', 'vol_frac_le_st', 'evap_decay_constant', 'frac_lost', 'frac_evap'))
    vp = B.array('vp', (C,), lo=0, hi=1e5)
    mw = B.array('mw', (C,), lo=1, hi=1000)
    sc = make_sc(B, a, substance(B, C, vapor_pressure=lambda t: vp, molecular_weight=mw))
    before = balances(B, sc, ['evaporated'])
    wind = Obj(at=lambda points, t, *x, **k: B.array('wind', (points.shape[0],), lo=0, hi=100).reshape(-1, 1))
    water = Obj(get=lambda *x, **k: B.real('temp', lo=250, hi=350))
    w = Evaporation(water=water, wind=wind)
    B.patch(w, '_active', True)
    old = Snap(a)
    w.weather_elements(sc, B.real('dt', lo=1, hi=86400), T0)
    ensures(B, sc, N, C, old, ['evaporated'], before, 2, what)


def h_evaporated_fraction(B):
    """the evaporated fraction grows by the evaporated part of the element's first mass, and the lost fraction is that of the mass gone; the decay itself enters by its contract"""
    from gnome.weatherers import Evaporation
    N, C, mc, a = container(B, ('area', 'vol_frac_le_st', 'evap_decay_constant', 'frac_lost', 'frac_evap'))
    sc = make_sc(B, a, substance(B, C))
    balances(B, sc, ['evaporated'])
    w = Evaporation(water=Obj(), wind=Obj())
    B.patch(w, '_active', True)
    B.patch(w, '_set_evap_decay_constant', lambda *x: None)
    B.patch(w, '_exp_decay', lambda M, lam, dt: M * B.real('kept', lo=0, hi=1))
    old = Snap(a)
    w.weather_elements(sc, 900., T0)
    def one(i):
        return B.at(sc['frac_evap'], i), B.at(old.frac_evap, i) + (B.at(old.mass, i) - B.at(sc['mass'], i)) / B.at(a['init_mass'], i)
    if B.symbolic:
        B.forall_sum_eq('evaporated-fraction-of-the-first-mass', (N,), one)
    else:
        B.forall('evaporated-fraction-of-the-first-mass', (N,), lambda i: B.close(*one(i), 1e-6))


def h_skimmer(B, what=('balance', 'range', 'frame')):
    from gnome.weatherers import Skimmer
    N, C, mc, a = container(B)
    sc = make_sc(B, a, substance(B, C))
    dt = B.int('dt', lo=1, hi=86400)
    mt, s, e = window(B, dt)
    units = B.choice('units', ['kg', 'm^3'])
    w = Skimmer(amount=B.real('amount', lo=0.1, hi=1e6), units=units, active_range=(s, e), water=None)
    w.efficiency = B.real('eff', lo=0.01, hi=1)
    w.prepare_for_model_run(sc)
    before = balances(B, sc, ['skimmed'])
    sc._data_arrays['fate_status'][:] = a['fate_status']
    prepared(B, w, sc, dt, mt, s, e)
    old = Snap(sc._data_arrays)
    w.weather_elements(sc, dt, mt)
    ensures(B, sc, N, C, old, ['skimmed'], before, 8, what)


def prepared(B, w, sc, dt, mt, s, e):
    """post-state of prepare_for_model_step (its own contract is C10): active and the step's share of the window"""
    B.patch(w, '_active', True)
    share = B.real('share', lo=0, hi=86400)
    B.assume(B.le(share, dt))
    w._timestep = share


def h_burn(B, what=('balance', 'range', 'frame')):
    from gnome.weatherers import Burn
    N, C, mc, a = container(B)
    sc = make_sc(B, a, substance(B, C))
    dt = B.int('dt', lo=1, hi=86400)
    w = Burn(area=B.real('barea', lo=1, hi=1e5), thickness=B.real('thick', lo=0.003, hi=1), active_range=(T0, T0 + datetime.timedelta(days=1)))
    w.efficiency = B.real('eff', lo=0, hi=1)
    w.prepare_for_model_run(sc)
    before = balances(B, sc, ['burned'])
    prepared(B, w, sc, dt, T0, None, None)
    old = Snap(sc._data_arrays)
    w.weather_elements(sc, dt, T0)
    ensures(B, sc, N, C, old, ['burned'], before, 16, what)


def h_chem(B, what=('balance', 'range', 'frame')):
    from gnome.weatherers import ChemicalDispersion
    N, C, mc, a = container(B)
    sc = make_sc(B, a, substance(B, C))
    dt = B.int('dt', lo=1, hi=86400)
    w = ChemicalDispersion(fraction_sprayed=B.real('fs', lo=0, hi=1), active_range=(T0, T0 + datetime.timedelta(days=3)))
    w.efficiency = B.real('eff', lo=0.01, hi=1)
    w.prepare_for_model_run(sc)
    w._rate = B.real('rate', lo=0, hi=1e6)
    before = balances(B, sc, ['chem_dispersed'])
    prepared(B, w, sc, dt, T0, None, None)
    old = Snap(sc._data_arrays)
    w.weather_elements(sc, dt, T0)
    ensures(B, sc, N, C, old, ['chem_dispersed'], before, 32, what)


def h_natdisp(alg):
    def h(B, what=('balance', 'range', 'frame')):
        from gnome.weatherers import NaturalDispersion
        N, C, mc, a = container(B, ('area', 'density', 'viscosity', 'droplet_avg_size'))
        sc = make_sc(B, a, substance(B, C))

        def get_value(points, t):
            n = points.shape[0]
            return (B.array('wH', (n,), lo=0.001, hi=20), B.array('wT', (n,), lo=0.1, hi=100), B.array('wW', (n,), lo=0, hi=1),
                    B.array('wD', (n,), lo=0, hi=1e5))
        water = Obj(kinematic_viscosity=1e-6, density=B.real('wrho', lo=1000, hi=1050),
                    get=lambda n, unit=None: {'sediment': sed, 'density': 1020.0, 'temperature': 290.0}[n])
        sed = B.real('sed', lo=0, hi=1)
        w = NaturalDispersion(waves=Obj(get_value=get_value, water=water), water=water, algorithm=alg)
        before = balances(B, sc, ['natural_dispersion', 'sedimentation'])
        B.patch(w, '_active', True)
        old = Snap(a)
        if B.symbolic:
            from pyvc.loops import ElementLoop

            def post(loc, ar, j):
                m = loc['mass']
                d, s = Sym(ar[0].at((j,))), Sym(ar[1].at((j,)))
                mj = Sym(m.at((j,)))
                return And(d >= 0, s >= 0, d + s <= mj)

            def after(loc, ar):
                B.sum_le('loss-within-mass', ar[0] + ar[1], loc['mass'])
            B.loop('disperse_oil_DS', ElementLoop('disperse_oil_DS', lambda l: [l['disp_out'], l['sed_out'], l['droplet_avg_size']], post, after))
        w.weather_elements(sc, B.real('dt', lo=1, hi=86400), T0)
        if B.symbolic:
            what = tuple(x for x in what if x != 'balance')      # balance of the two coupled removals: bounded
        ensures(B, sc, N, C, old, ['natural_dispersion', 'sedimentation'], before, 2, what)
    return h
