"""C04 the spilled amount: unit conversions, equal shares, totals"""
import datetime
import warnings
from .common import *
from gnome.spills import Spill, PointLineRelease
from gnome.spills.substance import NonWeatheringSubstance

T0 = datetime.datetime(2020, 1, 1)
TD = datetime.timedelta
# kilograms (or cubic metres) in one unit, from the definitions
MASS = {'kg': 1.0, 'mt': 1000.0, 'ton': 907.18474, 'lb': 0.45359237, 'g': 0.001, 'tonnes': 1000.0}
VOL = {'m^3': 1.0, 'bbl': 0.158987294928, 'gal': 0.003785411784, 'l': 0.001, 'm³': 1.0}


def spill(B, dens):
    rel = PointLineRelease(release_time=T0, start_position=(1., 2., 0.), num_elements=10)
    sub = NonWeatheringSubstance(standard_density=dens)
    return Spill(release=rel, substance=sub), rel


def kg(unit, dens):
    return MASS[unit] if unit in MASS else VOL[unit] * dens


def amounts(B):
    """the mass released is the stated amount; reading the amount back, in these or other units, gives it again"""
    warnings.simplefilter('ignore')
    dens = B.real('dens', lo=500, hi=1500)
    sp, rel = spill(B, dens)
    u = B.choice('units', list(MASS) + list(VOL))
    v = B.choice('other', list(MASS) + list(VOL))
    amt = B.real('amount', lo=0, hi=1e7)
    sp.units = u
    sp.amount = amt
    want = amt * kg(u, dens)
    tol = 2e-5
    near = lambda a, b: And(a - b <= tol * b, b - a <= tol * b)
    B.prove('mass-is-the-amount', near(rel.release_mass, want), [u, amt, rel.release_mass])
    B.prove('get-mass-is-the-mass', sp.get_mass() == rel.release_mass)
    B.prove('amount-reads-back', near(sp.amount, amt))
    m = rel.release_mass
    sp.units = v
    B.prove('changing-units-keeps-the-mass', rel.release_mass == m)
    B.prove('amount-in-other-units', near(sp.amount * kg(v, dens), want))
    sp.amount = sp.amount
    B.prove('setting-the-same-amount-keeps-the-mass', near(rel.release_mass, m))
    neg = B.real('neg', lo=-1e6, hi=0)
    B.assume(neg < 0)
    try:
        sp.amount = neg
        B.prove('negative-amount-refused', False)
    except ValueError:
        B.prove('refused-amount-changes-nothing', near(rel.release_mass, m))


def uncertainty(B):
    """amount uncertainty scales by 1 +/- 2/3 of the scale and refuses scales outside (0, 1]"""
    sp, rel = spill(B, 900.)
    sp.units = 'kg'
    amt = B.real('amount', lo=0, hi=1e7)
    sp.amount = amt
    s = B.real('scale', lo=-1, hi=2)
    sp.amount_uncertainty_scale = s
    d = B.choice('dir', ['up', 'down', None])
    done = sp.set_amount_uncertainty(d)
    if d is not None and s > 0 and s <= 1:
        f = 1 + 2 * s / 3 if d == 'up' else 1 - 2 * s / 3
        B.prove('scaled', And(done, rel.release_mass - amt * f <= 1e-9 * amt, amt * f - rel.release_mass <= 1e-9 * amt))
    else:
        B.prove('left-alone', And(not done, B.close(rel.release_mass, amt, 1e-6)))


def shares(B):
    """all elements together carry the released mass, whatever their number; components share it by their fractions"""
    N = B.int('n', lo=1, hi=10**6)
    M = B.real('mass', lo=0, hi=1e9)
    per = B.bool('per_step')
    ts = B.int('ts', lo=1, hi=86400)
    D = B.timedelta('dur', lo=0, hi=10**6, whole=True)
    kw = dict(num_per_timestep=N) if per else dict(num_elements=N)
    rel = PointLineRelease(release_time=T0, end_release_time=T0 + D, start_position=(1., 2., 0.), release_mass=M, **kw)
    d = B.secs(D)
    k = B.int('steps', lo=1, hi=10**6, gen=lambda r: max(1, -(-int(d) // ts)))
    B.assume(And(d <= k * ts, Or(k == 1, d > (k - 1) * ts)))
    B.assume(Or(per, N >= k))
    if B.symbolic:
        B.patch(rel, 'get_num_release_time_steps', lambda t: k)       # contract proved under C03
        B.patch(rel, 'generate_release_timeseries', lambda *a: None)
    rel.prepare_for_model_run(ts)
    sc = {'positions': np.zeros((3, 3)), 'mass': np.zeros(3), 'init_mass': np.zeros(3)}
    if B.symbolic:
        one = rel._mass_per_le
    else:
        rel.initialize_elements(3, sc, T0, T0 + TD(seconds=ts))
        one = sc['mass'][0]
        B.prove('same-for-all', (sc['mass'] == one).all() and (sc['init_mass'] == one).all())
    tot = N * k if per else N
    B.prove('shares-add-up', B.close(one * tot, M, 1e-6))


def components(B):
    from gnome.spills.gnome_oil import GnomeOil
    from . import modelgen as G
    o = G.oil()
    C = B.dim('C', 1, conc=4)
    N = B.dim('N', 1)
    frac = B.array('frac', (C,), lo=0, hi=1)
    mass = B.array('mass', (N,), lo=0, hi=1000)
    new = B.int('new', lo=1, hi=1000, gen=lambda r: r.randint(1, N.n))
    n = N.n
    B.assume(new <= n)
    import gnome.spills.gnome_oil as mod
    B.patch(mod, 'init_viscosity', lambda *a, **k: None)
    arrs = dict(mass=mass, mass_components=B.array('mc', (N, C), lo=0, hi=9), positions=B.array('pos', (N, 3), lo=0, hi=9), status_codes=B.array('st', (N,), dtype=np.int16, choices=[0, 2, 3, 7]))
    old = arrs['mass_components'].copy()
    import gnome.spills.substance as subm
    B.patch(subm.Substance, 'initialize_elements', lambda *a, **k: None)
    B.patch(o, '_pick_water', lambda e: None)
    o.__dict__['mass_fraction'] = frac
    o.initialize_elements(new, arrs)
    B.forall('components-are-shares', (N, C), lambda i, j: B.close(B.at(arrs['mass_components'], i, j),
             (Ite(i >= n - new, B.at(frac, j) * B.at(mass, i), B.at(old, i, j)) if B.symbolic else (B.at(frac, j) * B.at(mass, i) if i >= n - new else B.at(old, i, j)))))


def real_oil(B):
    """bounded: with a real oil, whose density depends on the temperature, in any unit, with or without water at hand"""
    warnings.simplefilter('ignore')
    from . import modelgen as G
    from gnome.environment import Water
    oil = G.oil()
    rho = float(oil.density_at_temp(288.15))
    water = B.choice('water', [None, 275., 300.])
    kw = {} if water is None else dict(water=Water(water))
    u, v = B.choice('units', list(MASS) + list(VOL)), B.choice('other', list(MASS) + list(VOL))
    amt = B.real('amount', lo=1, hi=1e5)
    sp = Spill(release=PointLineRelease(release_time=T0, start_position=(1., 2., 0.), num_elements=4), substance=oil, amount=amt, units=u, **kw)
    if water is not None and B.bool('oils_water'):
        oil.water = Water(water)
    near = lambda a, b: abs(a - b) <= 2e-5 * abs(b)
    want = amt * kg(u, rho)
    B.prove('oil-mass-is-the-amount', near(sp.get_mass(), want), (u, amt, sp.get_mass(), want))
    B.prove('oil-amount-reads-back', near(sp.amount, amt), (sp.amount, amt))
    sp.units = v
    B.prove('oil-amount-in-other-units', near(sp.amount * kg(v, rho), want), (u, v, sp.amount))
    f = 1.
    d = B.choice('dir', ['up', 'down', None])
    s = B.choice('scale', [.3, 1.])
    sp.amount_uncertainty_scale = s
    if sp.set_amount_uncertainty(d):
        f = 1 + 2 * s / 3 if d == 'up' else 1 - 2 * s / 3
    B.prove('oil-uncertain-amount', near(sp.get_mass(), want * f) and near(sp.amount * kg(v, rho), want * f), (d, s, sp.get_mass(), want))
    twice = B.bool('twice')
    if twice:
        sp.amount = 2 * sp.amount
        f *= 2
    B.prove('oil-changed-amount', near(sp.get_mass(), want * f), (sp.get_mass(), want * f))
    from gnome.spill_container import SpillContainer
    sc = SpillContainer()
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, 3600)
    sc.release_elements(T0, T0 + TD(seconds=3600), environment={'water': Water(water or 288.)})
    B.prove('oil-released', near(float(sc['mass'].sum()), want * f) and near(float(sc['mass_components'].sum()), want * f) if 'mass_components' in sc else near(float(sc['mass'].sum()), want * f),
            (sc['mass'], want * f))
    try:
        sp.units = B.choice('bad', ['m', 'cubic', 'furlong', 'kg/s'])
        B.prove('bad-units-refused', False, sp.units)
    except Exception:
        B.prove('units-kept', near(sp.amount * kg(v, rho), want * f), sp.units)


def whole_run(B):
    """bounded: over whole runs the released mass is the stated amount in proportion to the elements released"""
    from . import modelgen as G
    w = G.build(B, weather=B.bool('weather'), nspill=3, land=False)
    outs = G.run(w)
    for k, step in enumerate(outs):
        for o in step:
            tot = 0.
            for i, s in enumerate(w.spills):
                if not s.on or not len(o):
                    continue
                sel = o['spill_num'] == i
                share = s.get_mass() / s.num_elements
                B.prove('equal-shares', np.allclose(o['init_mass'][sel], share, rtol=1e-9), [o['init_mass'][sel], share])
            if w.weather and 'amount_released' in o.mb:
                want = sum(s.get_mass() / s.num_elements * n for s, n in zip(w.spills, [sp._num_released for sp in w.spills])) if k == len(outs) - 1 else None
                if want is not None and o is step[0]:
                    B.prove('amount-released-is-the-sum', abs(o.mb['amount_released'] - want) <= 1e-6 * max(want, 1), [o.mb['amount_released'], want])
    tm = w.model.spills._spill_container.total_mass if hasattr(w.model.spills, '_spill_container') else None
    if tm is not None:
        B.prove('total-mass', abs(tm - sum(s.get_mass() for s in w.spills)) <= 1e-6 * tm)


HARNESSES = [
    H('amounts', amounts, functions=['Spill.amount', 'Spill.units', 'Spill.get_mass', 'Release.release_mass', 'nucos.convert'], conc=200),
    H('uncertainty', uncertainty, functions=['Spill.set_amount_uncertainty']),
    H('shares', shares, functions=['Release.prepare_for_model_run']),
    H('components', components, functions=['GnomeOil.initialize_elements']),
    H('real_oil', real_oil, sym=False, conc=200, functions=['Spill.amount', 'Spill.units', 'GnomeOil.standard_density', 'Spill.set_amount_uncertainty']),
    H('whole_run', whole_run, sym=False, conc=60, conc_budget=40, functions=['Model.step', 'Spill.release_elements', 'aggregate', 'SpillContainer.total_mass']),
]
