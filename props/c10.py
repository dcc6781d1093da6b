"""C10 activity windows: a process acts exactly inside its active range"""
import datetime
from .common import *
from . import weath as W
from gnome.utilities.inf_datetime import InfDateTime

ZERO = datetime.timedelta(0)


def rng(B, mt):
    """an active range of any kind; returns (start, stop, cond(t))"""
    kind = B.choice('range', ['finite', 'from', 'until', 'always'])
    s = mt + B.timedelta('s', lo=-10**6, hi=10**6)
    e = s + B.timedelta('len', lo=0.001, hi=10**6)
    if kind == 'finite':
        return (s, e), lambda t: And(s <= t, t <= e)
    if kind == 'from':
        return (s, InfDateTime('inf')), lambda t: s <= t
    if kind == 'until':
        return (InfDateTime('-inf'), e), lambda t: t <= e
    return (InfDateTime('-inf'), InfDateTime('inf')), lambda t: True


def mk_process(make):
    def h(B):
        mt = B.datetime('mt', whole=True)
        r, inside = rng(B, mt)
        on = B.choice('on', [True, False])
        p = make(r, on)
        sign = B.choice('sign', [1, -1])
        dt = B.int('dt', lo=1, hi=86400) * sign
        # any earlier state of the flag
        p._active = B.choice('was', [True, False])
        p.prepare_for_model_step(Obj(uncertain=False, num_released=0), dt, mt)
        mid = mt + (B.timedelta('zero', lo=0, hi=0) + (datetime.timedelta(seconds=1) * 0)) + half(B, dt)
        want = And(on, inside(mid))
        B.prove('active-iff-midpoint-in-range', bool_of(B, p.active) == want if B.symbolic else bool(p.active) == bool(want))
    return h


def bool_of(B, x):
    return x if isinstance(x, SymBool) else SymBool(__import__('z3').BoolVal(bool(x)))


def half(B, dt):
    if B.symbolic:
        from pyvc.shims import SymTimedelta
        from pyvc.terms import term, real
        return SymTimedelta(real(term(dt)) / 2)
    return datetime.timedelta(seconds=dt / 2)


def model_prepares(B):
    """Model.setup_time_step: whatever was switched or changed since the last step, every mover and weatherer is active
    exactly as its range and switch say"""
    from gnome.model import Model
    from gnome.movers import SimpleMover
    from gnome.weatherers import HalfLifeWeatherer
    back = B.choice('backwards', [False, True])
    mt = B.datetime('mt', whole=True)
    dt = B.int('dt', lo=2, hi=86400)
    m = Model(start_time=datetime.datetime(2020, 1, 1), time_step=900, run_backwards=back, uncertain=True)
    k = B.choice('kind', ['mover', 'weatherer'])
    (s, e), inside = rng(B, mt)
    on = B.choice('on', [True, False])
    p = SimpleMover((1, 0, 0)) if k == 'mover' else HalfLifeWeatherer()
    m.movers += SimpleMover((1, 0, 0))
    (m.movers if k == 'mover' else m.weatherers).add(p)
    p.active_range = (s, e)
    p.on = on
    poke(p, _active=B.choice('was', [True, False]))
    poke(m, _current_time_step=B.int('step', lo=0, hi=10**4), _time_step=-dt if back else dt)
    m.model_time = mt
    m.setup_time_step()
    mid = mt + half(B, -dt if back else dt)
    want = And(on, inside(mid))
    B.prove('active-iff-midpoint-in-range', bool_of(B, p.active) == want if B.symbolic else bool(p.active) == bool(want), k)


def remove_mass(B):
    """cleanup: active iff the step overlaps the range, and credited with exactly the overlap"""
    from gnome.weatherers import Skimmer, Burn, ChemicalDispersion
    mt = B.datetime('mt', whole=B.choice('wholet', [True, False]))
    s = mt + B.timedelta('s', lo=-10**6, hi=10**6, whole=B.choice('wholes', [True, False]))
    e = s + B.timedelta('len', lo=1, hi=10**6, whole=True)
    dt = B.int('dt', lo=1, hi=400000)
    on = B.choice('on', [True, False])
    w = Skimmer(amount=100., units='kg', active_range=(s, e), water=None, efficiency=0.3, on=on)
    w._timestep = B.real('stale', lo=0, hi=1e6)
    from gnome.weatherers.cleanup import RemoveMass
    RemoveMass.prepare_for_model_step(w, None, dt, mt)
    a, b = B.secs(s) - B.secs(mt), B.secs(e) - B.secs(mt)
    lo = Ite(a > 0, a, 0) if B.symbolic else max(a, 0)
    hi = Ite(b < dt, b, dt) if B.symbolic else min(b, dt)
    overlap = hi > lo
    want = And(on, overlap)
    B.prove('active-iff-step-overlaps-range', bool_of(B, w.active) == want if B.symbolic else bool(w.active) == bool(want))
    if w.active:
        B.cover('active')
        B.prove('credited-time-is-overlap', B.close(w._timestep, hi - lo))


def mk_inert(make, needs=(), fate=None):
    """outside its active range a weatherer changes nothing"""
    def h(B):
        N, C, mc, a = W.container(B, needs)
        sc = make_sc(B, a, W.substance(B, C))
        w = make(B, C, sc)
        keys = ['evaporated', 'natural_dispersion', 'sedimentation', 'dissolution', 'skimmed', 'burned', 'chem_dispersed', 'bio_degradation', 'observed_beached']
        before = W.balances(B, sc, keys)
        B.patch(w, '_active', False)
        old = W.Snap(a)
        w.weather_elements(sc, B.real('dt', lo=1, hi=86400), W.T0)
        for k in a:
            dims = tuple([N] + ([C] if len(a[k].shape) > 1 and k != 'positions' else [3] if k == 'positions' else []))
            B.forall('unchanged-' + k, dims, lambda *ix: B.at(sc[k], *ix) == B.at(getattr(old, k), *ix))
        for k in keys:
            B.prove('balance-unchanged-' + k, sc.mass_balance[k] == before[k])
    return h


def mover_inert(B):
    from gnome.movers import SimpleMover
    N = B.dim('N', 1)
    a = dict(positions=B.array('pos', (N, 3), lo=-80, hi=80), status_codes=B.array('st', (N,), dtype=np.int16, choices=[0, 2, 3, 7, 10]))
    sc = make_sc(B, a, None, uncertain=B.choice('unc', [False, True]))
    m = SimpleMover(velocity=(1.0, 2.0, 0.5))
    m._active = False
    d = m.get_move(sc, B.int('dt', lo=1, hi=86400), W.T0)
    B.forall('inactive-mover-moves-nothing', (N, 3), lambda i, j: B.at(d, i, j) == 0)


def cy_inert(B):
    """bounded: compiled movers outside their range"""
    from gnome.movers import RandomMover, RandomMover3D, RiseVelocityMover, PointWindMover, constant_point_wind_mover
    n = B.int('n', lo=1, hi=6)
    sc = make_sc(B, dict(
        positions=np.array([[B.real('x', lo=-80, hi=80), B.real('y', lo=-60, hi=60), B.real('z', lo=0, hi=50)] for _ in range(n)]),
        status_codes=np.array([B.choice('st', [2, 3, 7]) for _ in range(n)], dtype=np.int16),
        rise_vel=np.full((n,), 0.01), droplet_diameter=np.full((n,), 1e-3), density=np.full((n,), 900.),
        windages=np.full((n,), 0.03), windage_range=np.tile([0.01, 0.04], (n, 1)), windage_persist=np.full((n,), 900, dtype=np.int32)), None)
    mt = datetime.datetime(2020, 1, 2)
    away = B.choice('away', [(mt + datetime.timedelta(hours=3), mt + datetime.timedelta(hours=5)), (mt - datetime.timedelta(hours=5), mt - datetime.timedelta(hours=3))])
    for m in (RandomMover(active_range=away), RandomMover3D(active_range=away), RiseVelocityMover(active_range=away), constant_point_wind_mover(10, 45, 'm/s')):
        m.active_range = away
        m.prepare_for_model_run()
        held = {k: np.array(v) for k, v in sc._data_arrays.items()}
        m.prepare_for_model_step(sc, 600, mt)
        B.prove('inactive', not m.active)
        d = np.array(m.get_move(sc, 600, mt))
        B.prove('inactive-mover-moves-nothing', bool((d == 0).all()))
        B.prove('inactive-mover-changes-nothing', all(np.array_equal(held[k], sc[k]) for k in held), [k for k in held if not np.array_equal(held[k], sc[k])])


def _ev(B, C, sc):
    from gnome.weatherers import Evaporation
    return Evaporation(water=Obj(), wind=Obj())


def _nd(B, C, sc):
    from gnome.weatherers import NaturalDispersion
    return NaturalDispersion(waves=Obj(), water=Obj())


def _em(B, C, sc):
    from gnome.weatherers import Emulsification
    return Emulsification(waves=Obj())


def _di(B, C, sc):
    from gnome.weatherers import Dissolution
    return Dissolution(waves=Obj(), wind=Obj())


def _bio(B, C, sc):
    from gnome.weatherers import Biodegradation
    return Biodegradation(waves=Obj())


def _sk(B, C, sc):
    from gnome.weatherers import Skimmer
    return Skimmer(amount=10., units='kg', efficiency=0.2, active_range=(W.T0, W.T0 + datetime.timedelta(days=1)), water=None)


def _bu(B, C, sc):
    from gnome.weatherers import Burn
    return Burn(area=10., thickness=0.1, active_range=(W.T0, W.T0 + datetime.timedelta(days=1)))


def _ch(B, C, sc):
    from gnome.weatherers import ChemicalDispersion
    return ChemicalDispersion(fraction_sprayed=.5, efficiency=.5, active_range=(W.T0, W.T0 + datetime.timedelta(days=1)))


def _hl(B, C, sc):
    from gnome.weatherers import HalfLifeWeatherer
    return HalfLifeWeatherer()


def _mover(r, on):
    from gnome.movers import SimpleMover
    return SimpleMover(velocity=(1., 0., 0.), active_range=r, on=on)


def _hlw(r, on):
    from gnome.weatherers import HalfLifeWeatherer
    return HalfLifeWeatherer(active_range=r, on=on)


def _evw(r, on):
    from gnome.weatherers import Evaporation
    return Evaporation(water=Obj(), wind=Obj(), active_range=r, on=on)


HARNESSES = [H('window_' + n, mk_process(f), functions=['Process.prepare_for_model_step', 'Process._check_active_startstop'])
             for n, f in (('mover', _mover), ('weatherer', _hlw), ('evaporation', _evw))]
HARNESSES += [H('model_prepares', model_prepares, functions=['Model.setup_time_step', 'Process.prepare_for_model_step'], conc=150)]
HARNESSES += [H('cleanup_window', remove_mass, functions=['RemoveMass.prepare_for_model_step', 'RemoveMass._set__timestep'], conc=400, covers=('active',))]
HARNESSES += [H('inert_' + n, mk_inert(f, ex), conc=40, total_division=True, functions=[c + '.weather_elements']) for n, f, ex, c in (
    ('evaporation', _ev, ('area', 'vol_frac_le_st', 'evap_decay_constant', 'frac_lost', 'frac_evap'), 'Evaporation'),
    ('natdisp', _nd, ('area', 'density', 'viscosity', 'droplet_avg_size'), 'NaturalDispersion'),
    ('emulsification', _em, ('age', 'bulltime', 'interfacial_area', 'frac_lost', 'frac_evap'), 'Emulsification'),
    ('dissolution', _di, ('area', 'density', 'viscosity', 'droplet_avg_size', 'partition_coeff'), 'Dissolution'),
    ('biodegradation', _bio, ('density', 'droplet_avg_size', 'yield_factor'), 'Biodegradation'),
    ('skimmer', _sk, (), 'Skimmer'), ('burn', _bu, (), 'Burn'), ('chem', _ch, (), 'ChemicalDispersion'),
    ('halflife', _hl, (), 'HalfLifeWeatherer'))]
HARNESSES += [H('inert_simple_mover', mover_inert, functions=['SimpleMover.get_move']),
              H('inert_compiled_movers', cy_inert, sym=False, conc=60, functions=['CyMover.get_move', 'CyMover.prepare_for_model_step'])]
