"""C27: slicks only grow, never past the thickness limit of their oil, and wind-driven convergence covers between a tenth and all of them."""
import datetime
import warnings
from .common import *
from .weath import container, substance, T0, fate_ok
from pyvc.terms import Unsupported


def fay(B):
    import gnome.weatherers.spreading as mod
    w = mod.FayGravityViscous(water=Obj())
    w._active = True
    return mod, w


def update(B):
    """FayGravityViscous.update_area: an area never shrinks and never passes its maximum; beyond it, in the first phase and without area nothing changes"""
    mod, w = fay(B)
    N = B.dim('N', 1)
    area = B.array('area', (N,), lo=0, hi=1e7, gen=lambda r: r.choice([0., r.uniform(1e-3, 50), r.uniform(0, 1e5)]))
    top = B.array('max', (N,), lo=0, hi=1e7, gen=lambda r: r.choice([r.uniform(0, 60), r.uniform(0, 1e6)]))
    vf = B.array('vf', (N,), lo=1e-6, hi=1)
    blob = B.array('blob', (N,), lo=1e-3, hi=1e5)
    age = B.array('age', (N,), dtype=np.int32, lo=1, hi=10**6, gen=lambda r: r.choice([1, 300, 900, 3600, 86400]))
    kvis = B.real('kvis', lo=1e-7, hi=1e-5)
    buoy = B.real('buoy', lo=1e-4, hi=.3)
    dt = B.real('dt', lo=1, hi=3600)
    t0 = B.real('t0', lo=0, hi=5000)
    asked = []

    def first_phase(*x, **k):
        asked.append((x, k))
        return t0
    B.patch(mod.FayGravityViscous, '_gravity_spreading_t0', staticmethod(first_phase))
    old, otop, oage, oblob, ovf = area.copy(), top.copy(), age.copy(), blob.copy(), vf.copy()
    new = w.update_area(kvis, buoy, blob, area, top, dt, vf, age)
    B.prove('first-phase-asked', len(asked) >= 1)
    a = lambda i: B.at(new, i)
    b = lambda i: B.at(old, i)
    B.forall('never-shrinks', (N,), lambda i: B.le(b(i), a(i)))
    B.forall('never-past-the-limit', (N,), lambda i: Or(B.le(a(i), B.at(otop, i)), a(i) == b(i)))
    B.forall('unchanged-at-the-limit', (N,), lambda i: Or(B.lt(b(i), B.at(otop, i)), a(i) == b(i)))
    B.forall('unchanged-in-the-first-phase', (N,), lambda i: Or(B.lt(t0, B.at(oage, i)), a(i) == b(i)))
    B.forall('nothing-spreads-to-nothing', (N,), lambda i: Or(B.lt(0, b(i)), a(i) == b(i)))
    B.forall('grows-otherwise', (N,), lambda i: Or(Not(And(B.lt(0, b(i)), B.lt(b(i), B.at(otop, i)), B.lt(t0, B.at(oage, i)))), B.lt(b(i), a(i)) if B.symbolic else a(i) > b(i)))
    for nm, x, y in (('limit', top, otop), ('age', age, oage), ('volume', blob, oblob), ('share', vf, ovf)):
        B.forall('leaves-the-' + nm, (N,), lambda i: B.at(x, i) == B.at(y, i))
    if not B.symbolic:
        # the rate: Fay's gravity-viscous law A = C sqrt(t) and diffusion A = K t^(7/6), of the blob, shared by its elements
        C = np.pi * 1.45 ** 2 * (oblob ** 2 * 9.80665 * buoy / kvis ** .5) ** (1 / 3)
        K = 4 * np.pi * 2 * .033
        A = old / ovf
        for i in range(len(old)):
            if not (old[i] > 0 and old[i] < otop[i] and oage[i] > t0):
                continue
            tg, td_ = (A[i] / C[i]) ** 2, (A[i] / K) ** (6 / 7)
            rate = C[i] / (2 * tg ** .5) + 7 / 6 * K * td_ ** (1 / 6)
            B.prove('rate-of-spreading', B.close(new[i], min(old[i] + ovf[i] * rate * dt, otop[i]), 2e-3), (i, new[i], old[i], rate))


def weather(B):
    """weather_elements: each floating element's area is that of update_area for its own spill's volume, age, share and limit; all others are left alone"""
    mod, w = fay(B)
    two = B.choice('spills', [1, 2])
    N, C, mc, a = container(B, ('area', 'fay_area', 'vol_frac_le_st', 'age', 'density'), ncomp=2)
    a['spill_num'] = B.array('spn', (N,), dtype=np.uint16, choices=[0, 1][:two])
    a['bulk_init_volume'] = B.array('blob', (N,), lo=1, hi=1e5)
    a['max_area_le'] = B.array('max0', (N,), lo=0, hi=1e5)
    for k, hi in (('release_rate', 9), ('frac_coverage', 1)):
        a[k] = B.array(k, (N,), lo=0, hi=hi)
    sc = make_sc(B, a, substance(B, C))
    lim = B.real('limit', lo=1e-5, hi=1e-4)
    w.thickness_limit = lim
    buoy = B.real('buoy', lo=1e-4, hi=.3)
    poke(w, _init_relative_buoyancy=buoy)
    dt = B.int('dt', lo=1, hi=3600)
    c = [B.real('c%d' % k, lo=0, hi=1) for k in range(4)]

    def upd(water_viscosity, relative_buoyancy, blob_init_vol, area, max_area_le, time_step, vol_frac_le_st, age):
        B.prove('step', time_step == dt, time_step)
        B.prove('buoyancy', relative_buoyancy == buoy, relative_buoyancy)
        return area + c[0] * blob_init_vol + c[1] * max_area_le + c[2] * vol_frac_le_st + c[3] * age
    B.patch(mod.FayGravityViscous, 'update_area', lambda self, *x, **k: upd(*x, **k))
    if B.symbolic:
        # contract of np.unique: each number that occurs (those that do not occur select nothing)
        B.patch(npx(B), 'unique', lambda x: [0, 1][:two])
    old = {k: v.copy() for k, v in a.items()}
    w.weather_elements(sc, dt, T0)
    o = lambda k, i: B.at(old[k], i)
    on = lambda i: And(fate_ok(B, o('fate_status', i), 2), B.lt(0, o('mass', i)))

    def one(i):
        return o('fay_area', i) + c[0] * o('bulk_init_volume', i) + c[1] * (o('init_mass', i) / o('density', i) / lim) + c[2] * o('vol_frac_le_st', i) + c[3] * (o('age', i) + dt)
    B.forall('spread', (N,), lambda i: Or(Not(on(i)), B.close(B.at(sc['fay_area'], i), one(i), 1e-9)))
    B.forall('area-is-the-spread-one', (N,), lambda i: Or(Not(on(i)), B.at(sc['area'], i) == B.at(sc['fay_area'], i)))
    B.forall('others-left-alone', (N,), lambda i: Or(on(i), And(B.at(sc['area'], i) == o('area', i), B.at(sc['fay_area'], i) == o('fay_area', i))))
    for k in ('mass', 'init_mass', 'density', 'age', 'bulk_init_volume', 'vol_frac_le_st'):
        B.forall('frame-' + k, (N,), lambda i: B.at(sc[k], i) == o(k, i))


def limit(B):
    """the thickness limit for the viscosity: ten to a hundred microns, in between linear"""
    mod, w = fay(B)
    v = B.real('v', lo=1e-8, hi=1)
    if not B.symbolic:
        v = B.choice('which', [v, v * 1e-4, 1e-4, 1e-6, v * 1e-7, 5e-5])
    t = mod.FayGravityViscous.get_thickness_limit(v)
    B.prove('at-least-ten-microns', B.le(1e-5, t), t)
    B.prove('at-most-a-hundred-microns', t <= 1.0001e-4, t)
    B.prove('thin-oil', Or(v >= 1e-6, t == 1e-5), (v, t))
    B.prove('thick-oil', Or(v < 1e-4, t == 1e-4), (v, t))
    B.prove('between', Or(v < 1e-6, v >= 1e-4, And(t - (1e-5 + (v - 1e-6) * 0.9091) <= 1e-9, (1e-5 + (v - 1e-6) * 0.9091) - t <= 1e-9)), (v, t))


def first(B):
    """init_area: the initial area is positive and no thinner than the limit, and that of the gravity phase below it"""
    mod, w = fay(B)
    w.thickness_limit = B.real('limit', lo=1e-5, hi=1e-4)
    v = B.real('volume', lo=1e-3, hi=1e5)
    kvis = B.real('kvis', lo=1e-7, hi=1e-2)
    buoy = B.real('buoy', lo=1e-4, hi=.3)
    if not B.symbolic and B.choice('wide', [0, 1]):
        w.thickness_limit = B.real('wide-limit', lo=1e-3, hi=1)
    a = w.init_area(kvis, buoy, v)
    B.prove('no-thinner-than-the-limit', B.le(a * w.thickness_limit, v) if not B.symbolic else a <= v / w.thickness_limit, (a, v))
    B.prove('positive', a > 0 if not B.symbolic else a >= 0, a)
    if not B.symbolic:
        want = np.pi * 1.21 ** 4 / 1.53 ** 2 * (v ** 5 * 9.80665 * buoy / kvis ** 2) ** (1 / 6)
        B.prove('gravity-phase', B.close(a, min(want, v / w.thickness_limit), 2e-3), (a, want))


def langmuir(B):
    """Langmuir.weather_elements: the area is the spread area times the covered share, of the element's own spill's thickness and its own density"""
    import gnome.weatherers.spreading as mod
    two = B.choice('spills', [1, 2])
    N, C, mc, a = container(B, ('area', 'fay_area', 'age', 'density'), ncomp=2)
    a['spill_num'] = B.array('spn', (N,), dtype=np.uint16, choices=[0, 1][:two])
    a['bulk_init_volume'] = B.array('blob', (N,), lo=1, hi=1e5)
    a['frac_coverage'] = B.array('fc', (N,), lo=0, hi=1)
    rho = B.real('rho_w', lo=1000, hi=1040)
    w = mod.Langmuir(water=Obj(get=lambda *x, **k: rho), wind=Obj())
    w._active = True
    sc = make_sc(B, a, substance(B, C))
    B.patch(type(sc), 'num_released', property(lambda self: 1))
    got = []
    k0, k1 = B.real('k0', lo=0, hi=1), B.real('k1', lo=0, hi=1)

    def cover(self, points, model_time, rel_buoy, thickness):
        got.append(thickness)
        return k0 + k1 * rel_buoy
    B.patch(mod.Langmuir, '_get_frac_coverage', cover)
    if B.symbolic:
        B.patch(npx(B), 'unique', lambda x: [0, 1][:two])
    old = {k: v.copy() for k, v in a.items()}
    if B.symbolic:
        # some element of each spill is floating (the first of it is looked at)
        for s in range(two):
            j = B.int('some%d' % s, lo=0)
            B.assume(And(j < N.n, B.at(old['spill_num'], j) == s, fate_ok(B, B.at(old['fate_status'], j), 2), B.lt(0, B.at(old['mass'], j))))
    w.weather_elements(sc, 900, T0)
    o = lambda k, i: B.at(old[k], i)
    on = lambda i: And(fate_ok(B, o('fate_status', i), 2), B.lt(0, o('mass', i)))
    B.forall('share-of-its-own-density', (N,), lambda i: Or(Not(on(i)), B.close(B.at(sc['frac_coverage'], i), k0 + k1 * ((rho - o('density', i)) / rho), 1e-9)))
    B.forall('area-is-the-covered-share', (N,), lambda i: Or(Not(on(i)), B.close(B.at(sc['area'], i), o('fay_area', i) * B.at(sc['frac_coverage'], i), 1e-9)))
    B.forall('spread-area-kept', (N,), lambda i: B.at(sc['fay_area'], i) == o('fay_area', i))
    B.forall('others-left-alone', (N,), lambda i: Or(on(i), And(B.at(sc['area'], i) == o('area', i), B.at(sc['frac_coverage'], i) == o('frac_coverage', i))))
    if not B.symbolic:
        sel = ((old['fate_status'] & 2) == 2) & (old['mass'] > 0)
        want = sorted(old['bulk_init_volume'][q][0] / old['fay_area'][q].sum() for s in range(2) for q in [sel & (old['spill_num'] == s)] if q.any())
        B.prove('thickness-of-its-spill', len(want) == len(got) and bool(np.allclose(sorted(got), want, rtol=1e-9)), (got, want))


def coverage(B):
    """the covered share lies between a tenth and one; no wind covers all, more wind or denser oil less"""
    import gnome.weatherers.spreading as mod
    N = B.dim('N', 1)
    w = mod.Langmuir(water=Obj(), wind=Obj())
    sp = B.array('wind', (N,), lo=0.01, hi=40)
    th = B.real('thick', lo=1e-5, hi=1e-2)
    rb = B.array('buoy', (N,), lo=1e-4, hi=.3)
    if not B.symbolic:
        if B.choice('calm', [0, 0, 1]):
            sp = sp * 0
        rb = np.where(np.random.RandomState(B.int('s', lo=0, hi=999)).rand(len(rb)) < .1, B.choice('dense', [0., -.01]), rb)
    B.patch(mod.Langmuir, 'get_wind_speed', lambda self, *x, **k: sp)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = w._get_frac_coverage(B.array('pos', (N, 3)), T0, rb, th)
    B.forall('between-a-tenth-and-all', (N,), lambda i: And(B.le(0.1, B.at(f, i)), B.le(B.at(f, i), 1)))
    if B.symbolic:
        return
    v = .005 * sp.max()
    for i in range(len(f)):
        if rb[i] <= 0:
            B.prove('as-dense-as-water', f[i] in (.1, 1.) , f[i])
        else:
            want = 1. if v == 0 else min(1, max(.1, (4 * th * rb[i] * 9.80665 / (np.pi ** 2 * v ** 2)) ** (1 / 3)))
            B.prove('share-of-the-law', B.close(f[i], want, 2e-3), (f[i], want))


def runs(B):
    """whole runs with spreading: areas grow with the elements' age up to the limit; a blob's elements share its volume"""
    from gnome.model import Model
    from gnome.environment import Water, Waves, constant_wind
    from gnome.weatherers import FayGravityViscous, Evaporation, Langmuir
    from gnome.spills import point_line_spill
    from .modelgen import oil, TD
    from gnome.constants import water_kinematic_viscosity
    warnings.simplefilter('ignore')
    st = datetime.datetime(2021, 3, 5, 7)
    step = B.choice('step', [300, 900, 3600, 7200])
    n = B.int('steps', lo=2, hi=14)
    m = Model(start_time=st, time_step=step, duration=TD(seconds=step * n), uncertain=B.choice('unc', [False, True]), cache_enabled=False)
    wind = constant_wind(B.choice('ws', [0., 3., 15.]), 30, 'm/s')
    temp = B.choice('temp', [275., 288., 300.])
    water = Water(temp)
    sub = oil()
    m.environment += [water, wind, Waves(wind, water)]
    fays = FayGravityViscous(water=water)
    m.weatherers += fays
    if B.choice('evap', [0, 1]):
        m.weatherers += Evaporation(water, wind)
    lang = B.choice('langmuir', [0, 0, 1])
    if lang:
        m.weatherers += Langmuir(water, wind)
    nsp = B.choice('spills', [1, 2])
    rel = []
    for k in range(nsp):
        dur = B.choice('dur', [0, 0, 1, 5, 9]) * step
        t = st + TD(seconds=B.choice('late', [0, 0, 2]) * step)
        s = point_line_spill(num_elements=B.int('n', lo=max(1, dur // step), hi=12), start_position=(0., 0., 0.), release_time=t, end_release_time=t + TD(seconds=dur) if dur else None,
                             amount=B.real('amount', lo=1, hi=5000), units='m^3', substance=sub, name='s%d' % k)
        m.spills += s
        rel.append((t, dur, s))
    def tenths(vo):
        return 1e-4 if vo >= 1e-4 else 1e-5 if vo < 1e-6 else 1e-5 + .9091 * (vo - 1e-6)
    lim = tenths(oil().kvis_at_temp(temp))
    fresh = oil().density_at_temp(temp)
    spread = FayGravityViscous(water=water)
    spread.thickness_limit = lim
    rho = water.get('density')
    visc = [float(oil().kvis_at_temp(temp)), water_kinematic_viscosity]
    last, early = {}, {}
    for k in range(n + 1):
        m.step()
        for u, sc in enumerate(m.spills.items()):
            if not len(sc):
                continue
            now = sc.current_time_stamp
            for s, (t, dur, sp) in enumerate(rel):
                new = (sc['spill_num'] == s) & np.array([(u, int(x)) not in last for x in sc['id']])
                if not new.any():
                    continue
                v = sc['init_mass'][new] / fresh
                got = sc['bulk_init_volume'][new]
                if not dur:
                    B.prove('volume-of-its-blob', bool(np.allclose(got, v.sum(), rtol=1e-4)), (k, s, got, v.sum()))
                elif now <= t + TD(hours=12):
                    # all that was released until then: they may come from more than one release since the last look
                    cum = early.get((u, s), 0.) + np.cumsum(v)
                    early[u, s] = cum[-1]
                    B.prove('volume-released-so-far', all(np.isclose(cum[i:], g, rtol=1e-4).any() for i, g in enumerate(got)), (k, s, got, cum))
                B.prove('share-of-its-blob', bool(np.allclose(sc['vol_frac_le_st'][new], v / got, rtol=1e-4)), (k, s))
                if not k:
                    first = [spread.init_area(x, (rho - sub.standard_density) / rho, got[0]) for x in visc]
                    B.prove('first-area', any(np.allclose(sc['fay_area'][new], a0 * v / got, rtol=1e-2) for a0 in first), (k, s, sc['fay_area'][new], first))
            vol = sc['init_mass'] / np.minimum(sc['density'], fresh)       # evaporation makes it denser: the volume was larger before
            for i in range(len(sc)):
                q = (u, int(sc['id'][i]))
                f = float(sc['fay_area'][i])
                B.prove('positive-area', f > 0, (k, q, f))
                was = last.get(q)
                B.prove('thinnest-at-the-limit', f * lim <= vol[i] * (1 + 1e-6) or (was is not None and f <= was * (1 + 1e-9)), (k, q, f, vol[i] / lim))
                B.prove('only-grows', was is None or f >= was, (k, q, f, was))
                last[q] = f
            fr = sc['area'] / sc['fay_area']
            B.prove('area-in-its-share', bool(np.all(fr <= 1 + 1e-9) and np.all(fr >= .1 - 1e-9)), (k, fr))
            for s, (t, dur, sp) in enumerate(rel):
                mine = sc['spill_num'] == s
                if not mine.any():
                    continue
                V = sc['vol_frac_le_st'][mine]
                if not dur:
                    B.prove('shares-of-the-blob', B.close(float(V.sum()), 1., 1e-6), (k, s, V.sum()))
                    B.prove('same-area-for-equal-elements', bool(np.allclose(sc['fay_area'][mine], sc['fay_area'][mine][0], rtol=1e-9)), (k, s))
                    B.prove('volume-of-the-blob', B.close(float(sc['bulk_init_volume'][mine][0]), sp.get_mass() / sub.standard_density, .1), (k, s, sc['bulk_init_volume'][mine][0]))
                else:
                    b = sc['bulk_init_volume'][mine]
                    B.prove('volume-so-far', bool(np.all(b <= sp.get_mass() / sub.standard_density * 1.1)) and bool(np.all(V > 0) and np.all(V <= 1 + 1e-9)), (k, s, b))
                    if dur <= 3600:
                        late = np.argsort(sc['id'][mine])
                        B.prove('volume-grows-with-the-release', bool(np.all(np.diff(b[late]) >= -1e-9)), (k, s, b[late]))


HARNESSES = [
    H('update', update, functions=['FayGravityViscous.update_area']),
    H('weather', weather, total_division=True, functions=['FayGravityViscous.weather_elements']),
    H('limit', limit, functions=['FayGravityViscous.get_thickness_limit']),
    H('first', first, functions=['FayGravityViscous.init_area']),
    H('langmuir', langmuir, total_division=True, functions=['Langmuir.weather_elements']),
    H('coverage', coverage, total_division=True, functions=['Langmuir._get_frac_coverage']),
    H('runs', runs, sym=False, conc=60, conc_budget=40, functions=['Release.initialize_elements_post_substance', 'FayGravityViscous.weather_elements']),
]
