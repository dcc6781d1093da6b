"""C24 an element's fate, density and viscosity follow from its own state; the balance sums what the elements hold"""
import datetime
from .common import *
from . import weath
from . import modelgen as M
from gnome.basic_types import oil_status, fate

T0 = datetime.datetime(2020, 1, 1)
IN, LAND, GONE, OFF = oil_status.in_water, oil_status.on_land, oil_status.to_be_removed, oil_status.off_maps
NW, SURF, SUB = int(fate.non_weather), int(fate.surface_weather), int(fate.subsurf_weather)
MARKS = [int(fate.skim), int(fate.burn), int(fate.disperse)]


def fates(B):
    """Model._update_fate_status"""
    from gnome.model import Model
    from gnome.spills.substance import NonWeatheringSubstance
    N = B.dim('N', 1)
    a = dict(status_codes=B.array('st', (N,), dtype=np.int16, choices=[0, IN, LAND, OFF, GONE]),
             positions=B.array('pos', (N, 3), lo=0, hi=50, choices=None, gen=lambda r: r.choice([0., 0., 3.])),
             fate_status=B.array('fate', (N,), dtype=np.uint8, choices=[NW, SURF, SUB] + MARKS + [m | SURF for m in MARKS]),
             spill_num=B.array('spn', (N,), dtype=np.uint16, choices=[0, 1]))
    sc = make_sc(B, a, None)
    old = {k: v.copy() for k, v in a.items()}
    inert = [B.bool('inert0'), B.bool('inert1')]
    inert = [bool(x) for x in inert]
    sc.spills = [Obj(substance=NonWeatheringSubstance() if x else Obj(is_weatherable=True)) for x in inert]
    m = Model()
    m._update_fate_status(sc)

    def want(i):
        st, f, z, s = B.at(old['status_codes'], i), B.at(old['fate_status'], i), B.at(old['positions'], i, 2), B.at(old['spill_num'], i)
        got = B.at(sc['fate_status'], i)
        dead = Or(And(s == 0, inert[0]), And(s == 1, inert[1]), st == LAND, st == GONE)
        marked = Or(*[(f & k) == k for k in MARKS])
        live = And(Not(dead), st == IN, Not(marked))
        return And(Implies(dead, got == NW), Implies(And(live, z == 0), got == SURF), Implies(And(live, z > 0), got == SUB),
                   Implies(And(Not(dead), Not(live)), got == f))
    B.forall('fate-follows-state', (N,), want)
    for k in ('status_codes', 'spill_num'):
        B.forall(k + '-untouched', (N,), lambda i: B.at(sc[k], i) == B.at(old[k], i))
    B.forall('positions-untouched', (N, 3), lambda i, j: B.at(sc['positions'], i, j) == B.at(old['positions'], i, j))


def _water(B):
    T, rho = B.real('T', lo=270, hi=310), B.real('rho_w', lo=995, hi=1030)

    def get(what, unit=None):
        return T if what == 'temperature' else rho
    return T, rho, Obj(get=get)


def density(B):
    """recalc_density: the emulsion's density from the element's own components and water; never above the water's"""
    from gnome.ops.density import recalc_density
    C = 3
    N, C, mc, a = weath.container(B, ('density', 'oil_density', 'viscosity'), ncomp=3)
    a['status_codes'] = B.array('st', (N,), dtype=np.int16, choices=[IN, LAND])
    cd = B.array('cd', (C,), lo=700, hi=1100)
    mf = B.array('mf', (C,), lo=0.05, hi=1)
    r0 = B.real('rho0', lo=700, hi=1000)
    T, rw, water = _water(B)
    at = []

    def dens(t):
        at.append(t)
        return r0
    sub = weath.substance(B, C, component_density=cd, mass_fraction=mf, num_components=3, density_at_temp=dens)
    sc = make_sc(B, a, sub)
    old = {k: v.copy() for k, v in a.items()}
    recalc_density(sc, water, aggregate=False)
    for t in at:
        B.prove('at-the-water-temperature', t == T)
    k = r0 / (B.at(cd, 0) * B.at(mf, 0) + B.at(cd, 1) * B.at(mf, 1) + B.at(cd, 2) * B.at(mf, 2))

    def want(i):
        m, f = B.at(old['mass'], i), B.at(old['frac_water'], i)
        el = And((B.at(old['fate_status'], i) & SURF) == SURF, m > 0)
        if not B.symbolic and not el:
            return B.at(sc['density'], i) == B.at(old['density'], i) and B.at(sc['oil_density'], i) == B.at(old['oil_density'], i)
        if B.symbolic:
            m = Ite(m > 0, m, 1.)
        s = k * (B.at(cd, 0) * (B.at(mc, i, 0) / m) + B.at(cd, 1) * (B.at(mc, i, 1) / m) + B.at(cd, 2) * (B.at(mc, i, 2) / m))
        e = f * rw + (1 - f) * s
        got, oil = B.at(sc['density'], i), B.at(sc['oil_density'], i)
        if not B.symbolic:
            return B.close(got, min(e, rw), 1e-9) and B.close(oil, s, 1e-9)
        return And(Implies(el, And(Or(And(e <= rw, got == e), And(e >= rw, got == rw)), oil == s)),
                   Implies(Not(el), And(got == B.at(old['density'], i), oil == B.at(old['oil_density'], i))))
    B.forall('density-of-each-element', (N,), want)
    for n in ('mass', 'frac_water', 'viscosity', 'fate_status', 'status_codes'):
        B.forall(n + '-untouched', (N,), lambda i: B.at(sc[n], i) == B.at(old[n], i))


def viscosity(B):
    """recalc_viscosity: fresh oil has the oil's viscosity; evaporation and water only ever thicken it, each element by its own"""
    from gnome.ops.viscosity import recalc_viscosity
    N = B.dim('N', 1)
    a = dict(frac_water=B.array('fw', (N,), lo=0, hi=0.9, gen=lambda r: r.choice([0., r.uniform(0, .9)])),
             frac_evap=B.array('fe', (N,), lo=0, hi=1, gen=lambda r: r.choice([0., r.uniform(0, 1)])),
             viscosity=B.array('visc', (N,), lo=1e-6, hi=1), oil_viscosity=B.array('ov', (N,), lo=1e-6, hi=1),
             density=B.array('rho', (N,), lo=700, hi=1000), mass=B.array('m', (N,), lo=0, hi=10))
    T, rw, water = _water(B)
    v0 = B.real('v0', lo=1e-7, hi=1.)
    sc = make_sc(B, a, Obj(is_weatherable=True, kvis_at_temp=lambda t: v0))
    old = {k: v.copy() for k, v in a.items()}
    recalc_viscosity(sc, water, aggregate=False)

    tiny = 0 if B.symbolic else 1e-9 * v0

    def want(i):
        v, o = B.at(sc['viscosity'], i), B.at(sc['oil_viscosity'], i)
        fe, fw = B.at(old['frac_evap'], i), B.at(old['frac_water'], i)
        return And(o >= v0 - tiny, v >= o - tiny, Implies(fe == 0, And(o <= v0 + tiny, o >= v0 - tiny)), Implies(fw == 0, And(v <= o + tiny, v >= o - tiny)))
    B.forall('never-thinner-than-fresh', (N,), want)
    for n in ('frac_water', 'frac_evap', 'density', 'mass'):
        B.forall(n + '-untouched', (N,), lambda i: B.at(sc[n], i) == B.at(old[n], i))
    if not B.symbolic:
        v, o = np.asarray(sc['viscosity']), np.asarray(sc['oil_viscosity'])
        kv = min(max(1500 * v0 ** .5, 1.), 10.)
        B.prove('thickening-by-evaporation', np.allclose(o, v0 * np.exp(kv * old['frac_evap']), rtol=1e-9))
        x = old['frac_water'] / .84
        B.prove('thickening-by-water', np.allclose(v, o * (1 + x / (1.187 - x)) ** 2.49, rtol=1e-9))


def begin(B):
    """init_density / init_viscosity: only the new elements, and never heavier than the water"""
    from gnome.ops.density import init_density
    from gnome.ops.viscosity import init_viscosity
    W = B.dim('W', 1)
    n = W.n
    k = B.int('k', lo=1) if B.symbolic else B.int('k', lo=1, hi=n)
    B.assume(k <= n)
    n0 = n - k
    a = dict(density=B.array('rho', (W,), lo=700, hi=1000), viscosity=B.array('v', (W,), lo=1e-6, hi=1))
    T, rw, water = _water(B)
    r0, v0 = B.real('r0', lo=700, hi=1100), B.real('v0', lo=1e-6, hi=1)
    sub = Obj(is_weatherable=True, name='x', density_at_temp=lambda t: r0, kvis_at_temp=lambda t: v0)
    sc = make_sc(B, a, sub)
    old = {x: v.copy() for x, v in a.items()}
    init_density(sc, k, water=water, substance=sub, aggregate=False)
    init_viscosity(sc, k, water=water, aggregate=False)
    new = lambda i: i >= n0
    lo = Ite(r0 > rw, rw, r0) if B.symbolic else min(r0, rw)
    B.forall('density-of-new', (W,), lambda i: And(Implies(new(i), B.at(sc['density'], i) == lo), Implies(Not(new(i)), B.at(sc['density'], i) == B.at(old['density'], i))))
    B.forall('viscosity-of-new', (W,), lambda i: And(Implies(new(i), B.at(sc['viscosity'], i) == v0), Implies(Not(new(i)), B.at(sc['viscosity'], i) == B.at(old['viscosity'], i))))


def sums(B):
    """aggregate: the balance sums what the elements hold"""
    from gnome.ops.aggregated_data import aggregate
    N = B.dim('N', 1)
    a = dict(mass=B.array('m', (N,), lo=0, hi=100), density=B.array('rho', (N,), lo=700, hi=1030), viscosity=B.array('v', (N,), lo=1e-6, hi=1),
             status_codes=B.array('st', (N,), dtype=np.int16, choices=[0, IN, LAND, GONE]), positions=B.array('pos', (N, 3), lo=0, hi=50, gen=lambda r: r.choice([0., 0., 3.])),
             fate_status=B.array('fate', (N,), dtype=np.uint8, choices=[NW, SURF, SUB, SURF | MARKS[0]]))
    sc = make_sc(B, a, None)
    old = {k: v.copy() for k, v in a.items()}
    sc.mass_balance['beached'] = b0 = B.real('b0', lo=0, hi=100)
    had = bool(B.bool('had'))
    prev = B.real('prev', lo=0, hi=1e5)
    if had:
        sc.mass_balance['amount_released'] = prev
    aggregate(sc)
    mb = sc.mass_balance
    m = old['mass']
    # recount with one weight per element
    B.sum_eq('floating', mb['floating'], npx(B).where((old['status_codes'] == IN) & (old['positions'][:, 2] == 0), m, 0. * m).sum())
    B.sum_eq('non-weathering', mb['non_weathering'], npx(B).where(old['fate_status'] == NW, m, 0. * m).sum())
    tot = m.sum()
    if tot > 0:
        B.sum_eq('mean-density', mb['avg_density'], (m * old['density'] / tot).sum())
        B.sum_eq('mean-viscosity', mb['avg_viscosity'], (m * old['viscosity'] / tot).sum())
    B.prove('others-kept', mb['beached'] == b0)
    B.prove('released-kept', (mb.get('amount_released') == prev) if had else 'amount_released' not in mb)
    for n in a:
        if n != 'positions':
            B.forall(n + '-untouched', (N,), lambda i: B.at(sc[n], i) == B.at(old[n], i))
    if not B.symbolic:
        n = len(m)
        k = B.int('k', lo=1, hi=n)
        aggregate(sc, k)
        B.prove('released-grows-by-the-new', abs(sc.mass_balance['amount_released'] - (prev if had else 0) - m[n - k:].sum()) < 1e-9 * (1 + prev))


def oils(B):
    """bounded: oil properties at a temperature agree with the oil's data"""
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.spills.sample_oils import _sample_oils
    import copy
    if not hasattr(oils, 'o'):
        oils.o = {k: GnomeOil(k) for k in sorted(_sample_oils)}
    name = B.choice('oil', sorted(oils.o))
    o = oils.o[name]
    rec = _sample_oils[name]
    ds = sorted((float(t), float(r)) for r, t, w in zip(o.densities, o.density_ref_temps, o.density_weathering) if w == 0)
    T = B.real('T', lo=265, hi=320)
    T2 = T + B.real('dT', lo=1, hi=20)
    r, r2 = float(o.density_at_temp(T)), float(o.density_at_temp(T2))
    B.prove('density-plausible', min(d for _, d in ds) * .9 < r < max(d for _, d in ds) * 1.1, r)
    for t, d in ds:
        if t > min([x for x, _ in ds] + [o.pour_point]) - 1e-9:
            B.prove('density-at-its-data', abs(float(o.density_at_temp(t)) - d) < 1.5e-3 * d, (name, t, d, o.density_at_temp(t)))
    if len(ds) > 1 and ds[0][0] <= T <= ds[-1][0]:
        B.prove('density-between-its-data', r <= max(d for _, d in ds) * 1.002 and r >= min(d for _, d in ds) * .998, (name, T, r, ds))
    B.prove('density-falls-with-temperature', r2 <= r * 1.002, (name, T, T2, r, r2))
    v, v2 = float(o.kvis_at_temp(T)), float(o.kvis_at_temp(T2))
    B.prove('viscosity-falls-with-temperature', v > 0 and v2 <= v, (name, v, v2))
    kv = [(float(t), float(k)) for k, t, w in zip(o.kvis, o.kvis_ref_temps, o.kvis_weathering) if w == 0]
    if len(kv) <= 2:
        for t, k in kv:
            B.prove('viscosity-at-its-data', abs(float(o.kvis_at_temp(t)) - k) < 1e-6 * k, (name, t, k))
    else:
        lo, hi = min(k for _, k in kv), max(k for _, k in kv)
        for t, k in kv:
            B.prove('viscosity-near-its-data', abs(np.log(float(o.kvis_at_temp(t)) / k)) <= np.log(hi / lo) + 1e-9, (name, t, k))
    p, p2 = np.asarray(o.vapor_pressure(T)), np.asarray(o.vapor_pressure(T2))
    B.prove('vapor-pressure-of-each-component', p.shape == (o.num_components,) and bool((p >= 0).all() and np.isfinite(p).all()))
    below = np.asarray(o.boiling_point) > T2
    B.prove('vapor-pressure-rises', bool((p2 >= p * (1 - 1e-9))[below].all()), (name, T))
    bp = np.asarray(o.boiling_point)
    order = np.argsort(bp)
    ok = below[order]
    B.prove('heavier-evaporate-less', bool((np.diff(p[order][ok]) <= 1e-9 * p.max()).all()), (name, T))
    at_bp = [float(np.asarray(o.vapor_pressure(float(b)))[i]) for i, b in enumerate(bp)]
    B.prove('boils-at-its-boiling-point', np.allclose(at_bp, 101325., rtol=1e-6), at_bp)
    B.prove('fractions-sum-to-one', abs(sum(o.mass_fraction) - 1) < 1e-6)
    arr = o.density_at_temp(np.array([T, T2, 288.15]))
    B.prove('many-temperatures-at-once', np.allclose(arr, [r, r2, o.standard_density], rtol=1e-12), arr)


def laboratory(B):
    """bounded: the same for oils with any table of measurements: in any order, fresh and weathered mixed, below and above the temperatures measured;
    only the fresh oil's measurements count"""
    import warnings
    warnings.simplefilter('ignore')
    from . import modelgen as G
    o = oils.base if hasattr(oils, 'base') else G.oil()
    oils.base = o
    o = type(o).deserialize(o.serialize())
    nd = B.int('densities', lo=1, hi=4)
    temps = [B.real('t', lo=265, hi=280)]
    for _ in range(nd - 1):
        temps.append(temps[-1] + B.real('gap', lo=3, hi=20))
    beta = B.real('beta', lo=.0005, hi=.0012)
    r0 = B.real('r0', lo=780, hi=960)
    ds = [(t, r0 / (1 + beta * (t - temps[0]))) for t in temps]
    rows = [(t, r, 0.) for t, r in ds]
    for _ in range(B.int('weathered', lo=0, hi=3)):
        rows.append((B.real('wt', lo=265, hi=320), B.real('wr', lo=960, hi=1050), B.choice('w', [.05, .1, .3])))
    rows = [rows[k] for k in np.random.RandomState(B.int('order', lo=0, hi=10**6)).permutation(len(rows))]
    o.densities, o.density_ref_temps, o.density_weathering = [r for _, r, _ in rows], [t for t, _, _ in rows], [w for _, _, w in rows]
    o.pour_point = B.real('pour', lo=220, hi=300)
    o.api = B.choice('api', [10., 30., 40.])
    low = min(temps[0], o.pour_point)
    at = lambda T: float(o.density_at_temp(T))
    for t, r in ds:
        B.prove('measured-density', abs(at(t) - r) < 1e-9 * r, (t, r, at(t)))
    T = B.real('T', lo=max(low, 255.), hi=340)
    r = at(T)
    if T < temps[0]:
        c = (ds[0][1] / r - 1) / (T - temps[0])
        B.prove('denser-in-colder-water', .0005 < c < .0013, (T, r, ds, c))
    elif T > temps[-1]:
        c = (ds[-1][1] / r - 1) / (T - temps[-1])
        B.prove('lighter-in-warmer-water', .0005 < c < .0013, (T, r, ds, c))
    else:
        want = np.interp(T, temps, [x for _, x in ds])
        B.prove('between-the-nearest-measurements', abs(r - want) < 6e-4 * want, (T, r, want, ds))
    if o.pour_point < temps[0]:
        B.prove('as-dense-as-at-the-pour-point-below-it', abs(at(low - 10.) - at(low)) < 1e-9 * r, (low, at(low - 10.), at(low)))
    many = [T, temps[-1] + 5., temps[0], T, low - 5.]
    B.prove('any-number-of-temperatures', np.allclose(o.density_at_temp(np.array(many)), [at(x) for x in many], rtol=1e-12), many)
    # viscosity: measurements on one curve are that curve
    nk = B.int('viscosities', lo=1, hi=4)
    kt = [B.real('kt', lo=265, hi=280)]
    for _ in range(nk - 1):
        kt.append(kt[-1] + B.real('kgap', lo=3, hi=20))
    k2 = 2100. if nk == 1 else B.real('k2', lo=500, hi=9000)
    v0 = B.real('v0', lo=1e-6, hi=1e-2)
    curve = lambda x: v0 * np.exp(k2 / x - k2 / kt[0])
    rows = [(t, curve(t), 0.) for t in kt]
    for _ in range(B.int('kweathered', lo=0, hi=3)):
        rows.append((B.real('kwt', lo=265, hi=320), B.real('kwr', lo=.1, hi=5), B.choice('kw', [.05, .1, .3])))
    rows = [rows[k] for k in np.random.RandomState(B.int('korder', lo=0, hi=10**6)).permutation(len(rows))]
    o.kvis, o.kvis_ref_temps, o.kvis_weathering = [r for _, r, _ in rows], [t for t, _, _ in rows], [w for _, _, w in rows]
    o.determine_visc_constants()
    X = B.real('X', lo=260, hi=330)
    B.prove('viscosity-of-the-fresh-oil', abs(float(o.kvis_at_temp(X)) - curve(X)) < 1e-6 * curve(X), (X, float(o.kvis_at_temp(X)), curve(X), rows))


def born(B):
    """initialize_elements of a substance: an oil element released at the surface in the water weathers there, one released deeper or on land does not,
    one of a substance that does not weather never does; elements released before keep everything they have"""
    from gnome.spills.substance import NonWeatheringSubstance
    from . import modelgen as G
    import gnome.spills.gnome_oil as mod
    W = B.dim('W', 1)
    n = W.n
    k = B.int('k', lo=1) if B.symbolic else B.int('k', lo=1, hi=n)
    B.assume(k <= n)
    n0 = n - k
    kind = B.choice('kind', ['oil', 'other'])
    a = dict(density=B.array('rho', (W,), lo=700, hi=1000), viscosity=B.array('v', (W,), lo=1e-6, hi=1), mass=B.array('m', (W,), lo=0, hi=100),
             mass_components=B.array('mc', (W, 2), lo=0, hi=9), positions=B.array('p', (W, 3), lo=-9, hi=9), status_codes=B.array('st', (W,), dtype=np.int16, choices=[0, 2, 3, 7]),
             fate_status=B.array('f', (W,), dtype=np.uint8, choices=[0, 1, 2, 4, 8, 16]))
    T, rw, water = _water(B)
    r0, v0 = B.real('r0', lo=700, hi=1100), B.real('v0', lo=1e-6, hi=1)
    if kind == 'oil':
        sub = G.oil()
        sub.__dict__['mass_fraction'] = np.array([.25, .75])
        B.patch(sub, 'kvis_at_temp', lambda *x, **k: v0)
    else:
        sub = NonWeatheringSubstance()
    B.patch(sub, 'density_at_temp', lambda *x, **k: r0)
    B.patch(sub, 'initializers', [])
    sub.water = None
    B.patch(sub, '_pick_water', lambda e: water)
    sc = make_sc(B, a, sub)
    if not B.symbolic:
        z = a['positions'][:, 2]
        z[np.abs(z) > 4] = 0
    old = {x: v.copy() for x, v in a.items()}
    sub.initialize_elements(k, sc, environment={'water': water})
    new = lambda i: i >= n0

    def fate_of(i):
        f = B.at(sc['fate_status'], i)
        if kind == 'other':
            return f == NW
        up = And(B.at(old['positions'], i, 2) == 0, B.at(old['status_codes'], i) == 2)
        return And(Implies(up, f == SURF), Implies(Not(up), f == SUB))
    B.forall('fate-of-new', (W,), lambda i: Implies(new(i), fate_of(i)))
    for x in ('density', 'viscosity', 'mass', 'status_codes', 'fate_status'):
        B.forall('older-keep-their-' + x, (W,), lambda i: Implies(Not(new(i)), B.at(sc[x], i) == B.at(old[x], i)))
    B.forall('older-keep-their-components', (W, 2), lambda i, j: Implies(Not(new(i)), B.at(sc['mass_components'], i, j) == B.at(old['mass_components'], i, j)))
    for x in ('mass', 'status_codes'):
        B.forall('new-keep-their-' + x, (W,), lambda i: B.at(sc[x], i) == B.at(old[x], i))


def water(B):
    """Emulsification.weather_elements around the compiled uptake (its contract: some water fraction up to the maximum per surface element): only surface
    elements change, and the water content of the balance is their mass-weighted mean; an oil that cannot emulsify stays dry"""
    from gnome.weatherers import Emulsification, emulsification as mod
    from . import weath as W
    N, C, mc, a = W.container(B, ('age', 'bulltime', 'interfacial_area', 'frac_evap', 'frac_lost', 'density', 'viscosity', 'oil_density', 'oil_viscosity'), ncomp=2)
    ymax = B.choice('ymax', [.7, 0.])
    if ymax:
        ymax = B.real('Y', lo=.05, hi=.9)
    sub = Obj(is_weatherable=True, name='oil', bullwinkle_time=-999., bullwinkle_fraction=.1, bullwinkle=.1, get=lambda n, *k: ymax)
    sc = make_sc(B, a, sub)
    w = Emulsification(waves=Obj())
    B.patch(w, '_active', True)
    B.patch(w, '_water_uptake_coeff', lambda *x, **k: 1.)
    asked = []

    def uptake(step_len, frac_water, le_interfacial_area, le_frac_evap, le_age, le_bulltime, k_emul, emul_time, emul_C, S_max, Y_max, drop_max):
        asked.append((step_len, Y_max))
        fw = frac_water
        fw[:] = fw * B.real('keep', lo=0, hi=1) + B.real('take', lo=0, hi=.05)
    B.patch(mod, 'emulsify_oil', uptake)
    was = B.real('was', lo=0, hi=.9)
    seen = []
    orig = sc.itersubstancedata

    def it(*x, **k):
        r = list(orig(*x, **k))
        seen.extend(d for _, d in r)
        return r
    B.patch(sc, 'itersubstancedata', it)
    sc.mass_balance['water_content'] = was
    old = W.Snap(a)
    sel = ((a['fate_status'] & SURF) == SURF) & (a['mass'] > 0)
    w.weather_elements(sc, 900, W.T0)
    B.forall('others-keep-their-water', (N,), lambda i: Or(B.at(sel, i), B.at(sc['frac_water'], i) == B.at(old.frac_water, i)))
    B.forall('mass-kept', (N, 2), lambda i, j: B.at(sc['mass_components'], i, j) == B.at(old.mass_components, i, j))
    for dt, ym in asked:
        B.prove('for-this-step-up-to-its-maximum', And(dt == 900, ym == ymax, ymax > 0))
    if not asked:
        B.forall('dry-without-uptake', (N,), lambda i: B.at(sc['frac_water'], i) == B.at(old.frac_water, i))
        return
    m = npx(B).where(sel, a['mass'], 0. * a['mass'])
    tot, wet = m.sum(), (m * sc['frac_water']).sum()
    if not B.symbolic:
        B.prove('water-content-is-the-mean-of-the-elements', tot == 0 or np.isclose(sc.mass_balance['water_content'], wet / tot), [sc.mass_balance, wet, tot])
    elif len(seen) == 1:
        M, X = seen[0]['mass'].sum(), (seen[0]['mass'] * seen[0]['frac_water']).sum()
        if M > 0:
            B.prove('water-content-is-the-mean-of-the-view', B.close(sc.mass_balance['water_content'], X / M))
        B.sum_eq('the-view-is-the-surface-elements', M, tot)
        B.sum_eq('the-water-is-the-surface-elements', X, wet)


def runs(B):
    """bounded: along whole runs density stays between the lightest component's and the water's, viscosity never below fresh"""
    w = M.build(B, weather=True, maxsteps=5)
    h = M.run(w)
    oil = w.oil
    for k, step in enumerate(h):
        for u, o in enumerate(step):
            if not len(o):
                continue
            env = w.env[1]
            T, rw = env.get('temperature', 'K'), env.get('density')
            d = o['density']
            B.prove('no-denser-than-water', bool((d <= rw * (1 + 1e-9)).all()), (d.max(), rw))
            fw = o['frac_water']
            B.prove('viscosity-at-least-fresh', bool((o['viscosity'] >= float(oil.kvis_at_temp(T)) * (1 - 1e-6)).all()))
            st, f, z = o['status_codes'], o['fate_status'], o['positions'][:, 2]
            B.prove('stranded-do-not-weather', bool((f[(st == LAND) & (o['age'] > 0)] == NW).all()), (f, st))


HARNESSES = [
    H('fates', fates, functions=['Model._update_fate_status']),
    H('density', density, functions=['recalc_density', '_get_k_rho_weathering_dens_update', 'SpillContainer.itersubstancedata', 'FateDataView']),
    H('viscosity', viscosity, functions=['recalc_viscosity', '_get_kv1_weathering_visc_update']),
    H('begin', begin, functions=['init_density', 'init_viscosity']),
    H('sums', sums, functions=['aggregate']),
    H('water', water, functions=['Emulsification.weather_elements'], total_division=True),
    H('oils', oils, sym=False, conc=200, functions=['GnomeOil.density_at_temp', 'GnomeOil.kvis_at_temp', 'GnomeOil.vapor_pressure']),
    H('laboratory', laboratory, sym=False, conc=200, functions=['GnomeOil.density_at_temp', 'GnomeOil.get_densities', 'GnomeOil.bounding_temperatures', 'GnomeOil._vol_expansion_coeff', 'GnomeOil._get_reference_densities', 'GnomeOil.determine_visc_constants']),
    H('born', born, functions=['GnomeOil.initialize_elements', 'NonWeatheringSubstance.initialize_elements', 'Substance.initialize_elements', 'init_density', 'init_viscosity']),
    H('runs', runs, sym=False, conc=60, conc_budget=40, functions=['Model.step_is_done', 'recalc_density', 'recalc_viscosity']),
]
