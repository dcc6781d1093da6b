"""C25 cleanup: skimmers, burns and dispersants take what they are set for, at a steady rate, from elements marked in order"""
import datetime
from .common import *
from . import weath as W

T = datetime.datetime(2020, 7, 1, 12)
SKIM, BURN, DISP, SURF = 8, 16, 32, 2


def _marked(B, a, bit):
    f = a['fate_status']
    return ((f & bit) == bit) & (a['mass'] > 0)


def _share(B, w):
    """the post-state of prepare_for_model_step: active, with some time in the step (that it is the overlap is the active-range property's)"""
    from gnome.weatherers.cleanup import RemoveMass
    RemoveMass.prepare_for_model_step(w, None, 1, w.active_range[0])
    B.patch(w, '_active', True)
    s = B.real('share', lo=0, hi=86400)
    poke(w, _timestep=s)
    return s


def _min(B, x, y):
    return Ite(x < y, x, y) if B.symbolic else min(x, y)


def _took(B, sc, old, N, key, before, want, M, sel):
    """the balance grows by the smaller of want and the marked mass M, all of it from the marked elements, each giving the same share"""
    got = sc.mass_balance[key] - before
    B.prove('takes-what-it-is-set-for', Or(B.le(M, 0), B.close(got, _min(B, want, M), 1e-7)), [got, want, M])
    new = sc['mass_components']
    frac = Ite(want < M, want / M, 1) if B.symbolic else (min(want / M, 1) if M > 0 else 0)
    B.forall('same-share-of-every-marked-element', (N, 2), lambda i, j: Or(Not(B.at(sel, i)), B.close(B.at(new, i, j), B.at(old.mass_components, i, j) * (1 - frac), 1e-7)))
    B.forall('others-untouched', (N, 2), lambda i, j: Or(B.at(sel, i), B.at(new, i, j) == B.at(old.mass_components, i, j)))


def _view(B, sc, sel, a):
    """the mass the process finds marked, as it sums it (proved to be that of the marked elements)"""
    if not B.symbolic:
        m = float(a['mass'][sel].sum())
        return lambda: m
    seen = []
    orig = sc.itersubstancedata

    def it(*x, **k):
        r = list(orig(*x, **k))
        seen.extend(d['mass'].sum() for _, d in r)
        return r
    B.patch(sc, 'itersubstancedata', it)
    want = a['mass'][sel].sum()

    def mass():
        from pyvc.terms import Unsupported
        if len(seen) != 1:
            raise Unsupported('the view of the marked elements was asked %d times' % len(seen))
        B.sum_eq('from-the-marked-elements', seen[0], want)
        return seen[0]
    return mass


def _oil_share(B, w):
    """contract of _avg_frac_oil: some share of oil in the marked mixture (its own harness: oil_share)"""
    fo = B.real('oilshare', lo=0.1, hi=1)
    B.patch(w, '_avg_frac_oil', lambda *x, **k: fo)
    return fo


def skim_step(B):
    """a step of a skimmer takes its rate x efficiency x its time in the step of mixture, of it the oil, at most what is marked; the rate is the amount over the range"""
    from gnome.weatherers import Skimmer
    N, C, mc, a = W.container(B, ncomp=2)
    rho = B.real('std_rho', lo=700, hi=999)
    sc = make_sc(B, a, W.substance(B, C, standard_density=rho))
    t0, td = B.datetime('t0', whole=True), B.timedelta('len', lo=1, hi=10**6, whole=True)
    L = B.secs(t0 + td) - B.secs(t0)
    units = B.choice('units', ['kg', 'm^3'])
    amt, eff = B.real('amount', lo=0.1, hi=1e6), B.real('eff', lo=0, hi=1)
    w = Skimmer(amount=amt, units=units, active_range=(t0, t0 + td), water=None)
    w.efficiency = eff
    w.prepare_for_model_run(sc)
    before = W.balances(B, sc, ['skimmed'])['skimmed']
    share = _share(B, w)
    fo = _oil_share(B, w)
    old = W.Snap(a)
    sel = _marked(B, a, SKIM)
    M = _view(B, sc, sel, a)
    w.weather_elements(sc, 900, T)
    k = 1. if units == 'kg' else rho
    _took(B, sc, old, N, 'skimmed', before, amt / L * share * k * eff * fo, M(), sel)


def burn_step(B):
    """a step of a burn takes its volume rate x efficiency x its time in the step, at most what is marked"""
    from gnome.weatherers import Burn
    N, C, mc, a = W.container(B, ncomp=2)
    rho = B.real('std_rho', lo=700, hi=999)
    sc = make_sc(B, a, W.substance(B, C, standard_density=rho))
    au, ka = B.choice('au', [('m^2', 1.), ('km^2', 1e6)])
    area, fo = B.real('barea', lo=1, hi=1e5), B.real('oilshare', lo=.1, hi=1)
    tu, kt = B.choice('tu', [('m', 1.), ('cm', .01)])
    thick = B.real('thick', lo=0.3, hi=1)
    w = Burn(area=area, thickness=thick, area_units=au, thickness_units=tu, active_range=(T, T + datetime.timedelta(days=1)))
    w.efficiency = B.real('eff', lo=0, hi=1)
    w.prepare_for_model_run(sc)
    w._init_rate_duration(fo)
    before = W.balances(B, sc, ['burned'])['burned']
    share = _share(B, w)
    old = W.Snap(a)
    sel = _marked(B, a, BURN)
    M = _view(B, sc, sel, a)
    w.weather_elements(sc, 900, T)
    _took(B, sc, old, N, 'burned', before, 0.000058 * fo * fo * area * ka * w.efficiency * share * rho, M(), sel)
    # until two millimetres are left at the thickness rate
    d = B.secs(w.active_range[1]) - B.secs(w.active_range[0])
    B.prove('burns-until-two-millimetres', B.close(d * 0.000058 * fo, thick * kt - .002, 2e-5 if not B.symbolic else 1e-7), [d, fo, thick])


def chem_step(B):
    """a dispersant takes its rate x its time in the step, at most what is marked; the rate is sprayed share x efficiency x the mass of the spills that are on, over its range"""
    from gnome.weatherers import ChemicalDispersion
    N, C, mc, a = W.container(B, ncomp=2, fates=[1, 2, 4, 32])
    sc = make_sc(B, a, W.substance(B, C))
    t0, td = B.datetime('t0', whole=True), B.timedelta('len', lo=10, hi=10**6, whole=True)
    L = B.secs(t0 + td) - B.secs(t0)
    fs, eff = B.real('fs', lo=0, hi=1), B.real('eff', lo=0, hi=1)
    w = ChemicalDispersion(fraction_sprayed=fs, active_range=(t0, t0 + td))
    w.efficiency = eff
    w.prepare_for_model_run(sc)
    m1, m2, m3 = (B.real('m%d' % k, lo=0, hi=1e6) for k in (1, 2, 3))
    B.patch(sc, 'spills', [Obj(on=True, get_mass=lambda: m1), Obj(on=False, get_mass=lambda: m2), Obj(on=True, get_mass=lambda: m3)])
    asked = []
    sel = _marked(B, a, DISP)

    def mark(sc_, status, substance, mass, oilwater_mix=True, **k):
        # contract of the marking (its own harness): the elements to mark are those of `sel`
        asked.append((status, mass, oilwater_mix))
    B.patch(w, '_update_LE_status_codes', mark)
    was = a['fate_status'].copy()
    a['fate_status'][:] = 2
    if not B.symbolic:
        sc['fate_status'][:] = 2
    w.prepare_for_model_step(sc, 1, t0)
    tot = (m1 + m3) * fs * eff
    B.prove('marks-the-sprayed-share', len(asked) == 1 and And(asked[0][0] == DISP, B.close(asked[0][1], tot, 1e-7), not asked[0][2]), [asked])
    sc['fate_status'][:] = was
    share = _share(B, w)
    before = W.balances(B, sc, ['chem_dispersed'])['chem_dispersed']
    old = W.Snap(a)
    M = _view(B, sc, sel, a)
    w.weather_elements(sc, 900, T)
    _took(B, sc, old, N, 'chem_dispersed', before, tot / L * share, M(), sel)


def oil_share(B):
    """the oil share of a mixture is its mass-weighted mean; one without mass counts as all oil"""
    from gnome.weatherers import Skimmer
    N = B.dim('N', 1)
    m, fw = B.array('mass', (N,), lo=0, hi=1000, gen=lambda r: r.choice([0., 0., r.uniform(0, 1000)])), B.array('fw', (N,), lo=0, hi=.9)
    w = Skimmer(amount=1., units='kg', active_range=(T, T + datetime.timedelta(hours=1)), water=None)
    got = w._avg_frac_oil(dict(mass=m, frac_water=fw))
    M = m.sum()
    if B.symbolic:
        if not (M > 0):
            B.prove('all-oil-without-mass', got == 1)
        else:
            B.sum_eq('mass-weighted-oil-share', got, 1 - (m * fw).sum() / M)
    else:
        B.prove('mass-weighted-oil-share', np.isclose(got, 1 - (m * fw).sum() / M) if M > 0 else got == 1)


def marking(B):
    """bounded: marking takes whole surface elements in order, as many as the amount needs and no more, and changes nothing but their mark"""
    from gnome.weatherers import Skimmer, Burn, ChemicalDispersion
    n = B.int('n', lo=1, hi=12)
    mc = np.array([[B.choice('m', [0., 0., B.real('mm', lo=0, hi=100)]) if B.choice('zero', [0, 0, 0, 1]) else B.real('mm', lo=.1, hi=100) for _ in range(2)] for _ in range(n)])
    fates = np.array([B.choice('fate', [1, 2, 2, 2, 4, 32]) for _ in range(n)], np.uint8)
    fw = np.array([B.choice('fw', [0., 0., .3, .75]) for _ in range(n)])
    a = dict(mass=mc.sum(1), mass_components=mc.copy(), init_mass=np.full(n, 300.), positions=np.zeros((n, 3)), fate_status=fates.copy(), frac_water=fw.copy(),
             status_codes=np.full(n, 2, np.int16), age=np.zeros(n, np.int32))
    kind = B.choice('kind', ['skim', 'burn', 'chem'])
    if kind == 'chem':
        fates[fates == 32] = a['fate_status'][a['fate_status'] == 32] = 1
    sc = make_sc(B, a, Obj(is_weatherable=True, name='oil', standard_density=900.))
    eff = B.choice('eff', [1., .5, .1, 0.])
    amount = B.choice('amt', [1., 30., 150., 5000.]) * B.real('am', lo=.5, hi=1.5)
    rng = (T, T + datetime.timedelta(hours=2))
    mix = a['mass'] / (1 - fw)
    if kind == 'skim':
        un = B.choice('un', ['kg', 'm^3'])
        w = Skimmer(amount=amount if un == 'kg' else amount / 900., units=un, active_range=rng, efficiency=eff, water=None)
        new = 10
    elif kind == 'burn':
        w = Burn(area=amount / 900. / .5, thickness=.5, active_range=rng, efficiency=eff)
        new = 16
    else:
        f = B.real('fs', lo=0, hi=1)
        w = ChemicalDispersion(fraction_sprayed=f, active_range=rng, efficiency=eff)
        B.patch(sc, 'spills', [Obj(on=True, get_mass=lambda x=amount: x), Obj(on=False, get_mass=lambda: 1e6)])
        amount, mix, new = amount * f, a['mass'].copy(), 32
    old = {k: v.copy() for k, v in a.items()}
    w.prepare_for_model_run(sc)
    w.prepare_for_model_step(sc, B.choice('dt', [60, 900, 3600]), T)
    need = amount * eff
    cand = [i for i in range(n) if old['fate_status'][i] == 2 and old['mass'][i] > 0]
    run, must, may = 0., set(), set()
    for i in cand:
        if run < need * (1 - 1e-9):
            must.add(i)
        if run < need * (1 + 1e-9) or not may:
            may.add(i)
        run += mix[i]
    got = {i for i in range(n) if sc['fate_status'][i] != old['fate_status'][i]}
    B.prove('marks-as-many-as-needed', must <= got, [kind, must, got, need, mix.tolist(), old['fate_status'].tolist(), sc['fate_status'].tolist()])
    B.prove('marks-no-more-than-needed', got <= may, [kind, may, got, need, mix.tolist()])
    B.prove('marked-with-its-own-mark', all(sc['fate_status'][i] == new for i in got), [kind, sc['fate_status'].tolist()])
    for k in old:
        if k != 'fate_status':
            B.prove('marking-changes-nothing-else', np.array_equal(sc[k], old[k]), [kind, k, sc[k], old[k]])


def whole_run(B):
    """bounded: whole runs, ranges anywhere across the steps: the total is the amount times the efficiency, spread evenly over the range"""
    from gnome.model import Model
    from gnome.weatherers import Skimmer, Burn, ChemicalDispersion
    from gnome.spills import point_line_spill
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.environment import Water, Waves, constant_wind
    kind = B.choice('kind', ['skim', 'skim', 'burn', 'chem'])
    step = B.choice('step', [600, 900, 1800])
    off, dur = B.int('off', lo=0, hi=4000), B.int('dur', lo=60, hi=9000)
    eff = B.choice('eff', [1., .5, .2])
    ne = B.int('ne', lo=1, hi=40)
    spilled = B.choice('spilled', [1000., 20000.])
    oil = GnomeOil('oil_crude')
    rho = oil.standard_density
    m = Model(start_time=T, duration=datetime.timedelta(seconds=step * 16), time_step=step)
    sp = point_line_spill(ne, (0., 0., 0.), T, substance=oil, amount=spilled, units='kg')
    m.spills += sp
    if B.choice('second', [0, 0, 1]):
        s2 = point_line_spill(3, (0., 0., 0.), T, substance=oil, amount=500., units='kg', on=False)
        m.spills += s2
    a, b = T + datetime.timedelta(seconds=off), T + datetime.timedelta(seconds=off + dur)
    water = Water(290.)
    wind = constant_wind(1., 0., 'm/s')
    waves = Waves(wind, water)
    m.environment += [water, wind, waves]
    if kind == 'skim':
        un = B.choice('un', ['kg', 'm^3', 'bbl'])
        amt = B.real('amt', lo=1, hi=800)
        k = {'kg': 1., 'm^3': rho, 'bbl': rho * .158987294928}[un]
        w = Skimmer(amount=amt / k, units=un, active_range=(a, b), efficiency=eff, water=water)
        total = amt * eff
    elif kind == 'chem':
        f = B.real('fs', lo=0, hi=.9)
        w = ChemicalDispersion(fraction_sprayed=f, active_range=(a, b), efficiency=eff, waves=waves)
        total = spilled * f * eff
        amt = spilled * f
    else:
        amt = B.real('amt', lo=1, hi=800)
        th = B.real('th', lo=.05, hi=.3)
        w = Burn(area=amt / rho / th, thickness=th, active_range=(a, b), efficiency=eff, water=water, wind=wind)
        dur = (th - .002) / .000058
        total = amt * eff * (th - .002) / th
    m.weatherers += w
    key = dict(skim='skimmed', burn='burned', chem='chem_dispersed')[kind]
    have = spilled
    prev = 0.
    while True:
        try:
            m.step()
        except StopIteration:
            break
        sc = next(iter(m.spills.items()))
        n = m.current_time_step
        got = sc.mass_balance.get(key, 0.)
        t0, t1 = (n - 1) * step, n * step          # the weathering of step n covers the interval it ends
        B.prove('never-shrinks', got >= prev - 1e-9)
        prev = got
        hi = max(0., min(off + dur, n * step) - off) / dur * total
        lo_ = max(0., min(off + dur, t0) - off) / dur * total
        B.prove('steady-rate', lo_ * (1 - 1e-6) - 1e-6 <= got <= hi * (1 + 1e-6) + 1e-6 or total > have * .999, [kind, n, got, lo_, hi])
    done = (m.current_time_step + 1) * step >= off + dur + step
    if done and total < have * .999:
        B.prove('total-is-what-it-was-set-for', np.isclose(prev, total, rtol=1e-6, atol=1e-6), [kind, prev, total])


HARNESSES = [H('oil_share', oil_share, functions=['CleanUpBase._avg_frac_oil'], total_division=True),
             H('marking', marking, sym=False, conc=600, functions=['CleanUpBase._update_LE_status_codes', 'Skimmer.prepare_for_model_step', 'Burn.prepare_for_model_step']),
             H('whole_run', whole_run, sym=False, conc=80, functions=['Model.step', 'Skimmer', 'Burn', 'ChemicalDispersion']),
             H('chem_step', chem_step, functions=['ChemicalDispersion.weather_elements', 'ChemicalDispersion.prepare_for_model_step'], total_division=True),
             H('skim_step', skim_step, functions=['Skimmer.weather_elements', 'Skimmer.prepare_for_model_run', 'RemoveMass._get_mass'], total_division=True),
             H('burn_step', burn_step, functions=['Burn.weather_elements', 'Burn._init_rate_duration'], total_division=True)]
ASSUMPTIONS = ['two components per element in the proofs of the steps', 'the efficiency is set to a number (computing it from wind or waves is outside)']
