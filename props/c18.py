"""C18 randomness stays inside its bounds and honours persistence"""
import datetime
from .common import *
from gnome.utilities import rand


def rwp(B):
    N = B.dim('N', 1)
    low = B.array('low', (N,), lo=-10, hi=10)
    w = B.array('w', (N,), lo=0, hi=10)
    high = low + w
    old = B.array('old', (N,), lo=-100, hi=100)
    per = B.array('per', (N,), lo=-1, hi=3600, gen=lambda r: r.choice([-1, 0, 60, 900, 900.5, 3600, r.uniform(-1, 2000)]))
    dt = B.real('dt', lo=1, hi=86400, gen=lambda r: r.choice([60, 900, 3600, r.uniform(1, 9000)])) * B.choice('sgn', [1, -1])
    B.assume_forall((N,), lambda i: B.at(w, i) > 0)
    arr, l0, h0, p0 = old.copy(), low.copy(), high.copy(), per.copy()
    out = rand.random_with_persistance(low, high, array=arr, persistence=per, time_step=dt)
    B.forall('bounds-arrays-untouched', (N,), lambda i: And(B.at(low, i) == B.at(l0, i), B.at(high, i) == B.at(h0, i), B.at(per, i) == B.at(p0, i)))

    def scale2(i):
        return B.at(per, i) / abs(dt)

    def ok(i):
        v, p = B.at(out, i), B.at(per, i)
        upd = And(p > 0, p <= 900)
        mean, half = (B.at(l0, i) + B.at(h0, i)) / 2, B.at(w, i) / 2
        dev = v - mean
        return Or(And(Not(upd), v == B.at(old, i)), And(upd, dev * dev <= half * half * scale2(i) * (1 + 1e-9) + 1e-12))
    B.forall('updated-within-scaled-bounds-else-kept', (N,), ok)
    B.forall('returned-array-is-the-given-one', (N,), lambda i: B.at(arr, i) == B.at(out, i))


def rwp_nopers(B):
    N = B.dim('N', 1)
    low = B.array('low', (N,), lo=-10, hi=10)
    w = B.array('w', (N,), lo=0, hi=10)
    high = low + w
    out = rand.random_with_persistance(low, high)
    B.forall('within-bounds', (N,), lambda i: And(B.le(B.at(low, i), B.at(out, i)), B.le(B.at(out, i), B.at(low, i) + B.at(w, i))))
    # bounds given as equal reproduce the bound exactly
    o2 = rand.random_with_persistance(low, low.copy())
    B.forall('degenerate-bounds', (N,), lambda i: B.close(B.at(o2, i), B.at(low, i)))


def rwp_bad(B):
    """lower above upper bound anywhere is refused"""
    N = B.dim('N', 1)
    low = B.array('low', (N,), lo=-10, hi=10)
    high = B.array('high', (N,), lo=-10, hi=10)
    try:
        rand.random_with_persistance(low, high)
        B.forall('accepted-only-ordered', (N,), lambda i: B.at(low, i) <= B.at(high, i))
    except ValueError:
        B.cover('refused')
        if not B.symbolic:
            B.prove('refused-only-when-crossed', bool((low > high).any()))


def windage(B):
    """bounded: the windage of every element stays in its (persistence-scaled) range through real wind movers"""
    from gnome.movers import constant_point_wind_mover
    n = B.int('n', lo=1, hi=8)
    lo_ = B.real('lo', lo=0, hi=0.05)
    hi_ = lo_ + B.real('w', lo=0, hi=0.05)
    from gnome.spills.substance import NonWeatheringSubstance
    asked = B.choice('per', [-1, float('inf'), 900, 600, None])
    sub = NonWeatheringSubstance(windage_range=(lo_, hi_), windage_persist=asked)
    per = -1 if asked in (-1, float('inf')) else asked or 900
    B.prove('windage-range-read-back', tuple(sub.windage_range) == (lo_, hi_))
    sc = make_sc(B, dict(positions=np.zeros((n, 3)), status_codes=np.full((n,), 2, dtype=np.int16), windages=np.full((n,), (lo_ + hi_) / 2),
                         windage_range=np.tile([lo_, hi_], (n, 1)), windage_persist=np.full((n,), sub.windage_persist, dtype=np.int32)), None)
    np.random.seed(B.int('seed', lo=0, hi=10**6))
    m = constant_point_wind_mover(10, 45, 'm/s')
    m.prepare_for_model_run()
    dt = B.choice('dt', [300, 900, 3600])
    t = datetime.datetime(2020, 1, 1)
    for k in range(3):
        m.prepare_for_model_step(sc, dt, t)
        d = m.get_move(sc, dt, t)
        half = (hi_ - lo_) / 2 * (1 if per <= 0 else np.sqrt(per / dt))
        v = sc['windages'] - (lo_ + hi_) / 2
        B.prove('windage-in-range', bool((np.abs(v) <= half + 1e-12).all()))
        if per == -1:
            B.prove('persistent-windage-kept', bool((v == 0).all()))


def reseed(B):
    """bounded: seeding makes python, numpy and native randomness repeat"""
    import random
    from gnome.movers import RandomMover
    s = B.choice('kind', [0, 1, B.int('seed', lo=0, hi=2**31 - 2)])
    n = B.int('n', lo=1, hi=5)
    sc = make_sc(B, dict(positions=np.zeros((n, 3)), status_codes=np.full((n,), 2, dtype=np.int16)), None, uncertain=False)
    t = datetime.datetime(2020, 1, 1)
    res = []
    for k in range(2):
        m = RandomMover()
        m.prepare_for_model_run()
        rand.seed(s)
        m.prepare_for_model_step(sc, 900, t)
        res.append((random.random(), float(np.random.rand()), np.array(m.get_move(sc, 900, t)).tolist()))
    B.prove('seeded-streams-repeat', res[0] == res[1])


HARNESSES = [
    H('persistence', rwp, functions=['random_with_persistance'], conc=400),
    H('no_persistence', rwp_nopers, functions=['random_with_persistance']),
    H('refusal', rwp_bad, functions=['random_with_persistance']),
    H('windage', windage, sym=False, conc=120, functions=['WindMoversBase.prepare_for_model_step', 'random_with_persistance']),
    H('reseed', reseed, sym=False, conc=60, functions=['rand.seed', 'CyRandomMover.get_move']),
]
TRUSTED = ['numpy.random.uniform under its documented contract']
