"""C09 refloating"""
import datetime
from .common import *
from gnome.basic_types import oil_status
from gnome.maps import RasterMap, GnomeMap
from gnome.maps.tideflat_map import TideflatMap, TideflatBase, SimpleTideflat
from gnome.utilities.projections import FlatEarthProjection

IN, LAND, OFF, GONE, FLAT = oil_status.in_water, oil_status.on_land, oil_status.off_maps, oil_status.to_be_removed, oil_status.on_tideflat
T0 = datetime.datetime(2020, 1, 1)
ST = [0, IN, LAND, FLAT]


def world(B, N, st=ST):
    a = dict(positions=B.array('pos', (N, 3), lo=-100, hi=100), next_positions=B.array('nxt', (N, 3), lo=-100, hi=100),
             last_water_positions=B.array('lw', (N, 3), lo=-100, hi=100), status_codes=B.array('st', (N,), dtype=np.int16, choices=st),
             mass=B.array('mass', (N,), lo=0, hi=1000))
    return make_sc(B, a, None), {k: v.copy() for k, v in a.items()}


def raster(half):
    return RasterMap(raster=np.zeros((20, 30), np.uint8), projection=FlatEarthProjection(((-10, -12), (12, 14)), (20, 30)), refloat_halflife=half)


def beach_map(B, half):
    from gnome.maps.map import ParamMap
    if B.choice('map', ['raster', 'param']) == 'raster':
        return raster(half)
    return ParamMap(center=(1., 2.), distance=30000., bearing=40., refloat_halflife=half)


def outcome(B, sc, old, N, half, wet=None):
    """each stranded element either stays exactly as it was or floats at its last water position; nothing else changes"""
    def one(i, j):
        s0, s = B.at(old['status_codes'], i), B.at(sc['status_codes'], i)
        p0, p, lw = B.at(old['positions'], i, j), B.at(sc['positions'], i, j), B.at(old['last_water_positions'], i, j)
        stay = And(s == s0, p == p0)
        go = And(s == IN, p == lw)
        stranded = go if half == 'zero' else stay if half == 'neg' else Or(stay, go)
        other = stay
        if wet is not None:
            other = Ite(s0 == FLAT, And(p == p0, s == Ite(wet(i), IN, FLAT)), stay) if B.symbolic else \
                ((p == p0 and s == (IN if wet(i) else FLAT)) if s0 == FLAT else stay)
        return And(Implies(s0 == LAND, stranded), Implies(s0 != LAND, other))
    B.forall('stays-or-floats-where-it-last-floated', (N, 3), one)
    B.forall('one-outcome-per-element', (N, 3), lambda i, j: Implies(And(B.at(old['status_codes'], i) == LAND, B.at(sc['status_codes'], i) == IN),
                                                                  B.at(sc['positions'], i, j) == B.at(old['last_water_positions'], i, j)))
    B.forall('rest-untouched', (N, 3), lambda i, j: And(B.at(sc['last_water_positions'], i, j) == B.at(old['last_water_positions'], i, j),
                                                        B.at(sc['mass'], i) == B.at(old['mass'], i)))


def refloat(B):
    """any elements, any half-life"""
    N = B.dim('N', 1)
    sc, old = world(B, N)
    k = B.choice('k', ['neg', 'zero', 'pos'])
    h = 0. if k == 'zero' else B.real('h', lo=0.01, hi=1000) * (-1 if k == 'neg' else 1)
    m = beach_map(B, 1.)
    m.refloat_halflife = h
    B.prove('half-life-reads-back', B.close(m.refloat_halflife, h, 1e-9))
    m.refloat_elements(sc, B.real('dt', lo=1, hi=86400))
    outcome(B, sc, old, N, k)


def no_land(B):
    """a map without land refloats nothing"""
    N = B.dim('N', 1)
    sc, old = world(B, N)
    GnomeMap().refloat_elements(sc, B.real('dt', lo=1, hi=86400))
    outcome(B, sc, old, N, 'neg')


def probability(B):
    """bounded: after one half-life half of the stranded elements float, independently of each other, whatever the split into steps"""
    n = 40000
    h = B.choice('h', [0.25, 1., 3.5, 24.])
    m = beach_map(B, h)
    B.prove('half-life-reads-back', B.close(m.refloat_halflife, h, 1e-9))
    x = B.choice('x', [0.1, 0.5, 1., 2.])
    k = B.choice('k', [1, 2, 3])
    np.random.seed(B.int('seed', lo=1, hi=10**6))
    pos = np.arange(3. * n).reshape(n, 3)
    class SC(dict):
        uncertain = False
    st = np.full(n, LAND, np.int16)
    st[::7] = IN
    sc = SC(positions=pos.copy(), last_water_positions=-pos, status_codes=st.copy())
    for _ in range(k):
        m.refloat_elements(sc, x * h * 3600 / k)
    land = st == LAND
    gone = land & (sc['status_codes'] == IN)
    f, p = gone.sum() / land.sum(), 1 - .5 ** x
    B.prove('expected-fraction-floats', abs(f - p) < 6 * (p * (1 - p) / land.sum()) ** .5, [f, p])
    i = np.flatnonzero(land)
    g = gone[i]
    for lag in (1, 2, 5):
        c = np.mean((g[lag:] - f) * (g[:-lag] - f)) / (f * (1 - f))
        B.prove('independent', abs(c) < 6 / len(g) ** .5, [lag, c])
    B.prove('position-of-each', np.array_equal(sc['positions'][gone], -pos[gone]) and np.array_equal(sc['positions'][~gone], pos[~gone]))


def tideflat(B):
    """tide flats: elements in the water on a dry flat strand there and float when it is wet again, without moving"""
    N = B.dim('N', 1)
    sc, old = world(B, N, ST)
    sc.mass_balance = dict(off_maps=0., beached=0.)
    k = B.choice('halflife', ['neg', 'zero', 'pos'])
    land = raster({'neg': -1., 'zero': 0., 'pos': 1.}[k])
    D = B.array('dry', (N,), dtype=bool)
    pos = {}
    same = B.bool('refloat')
    if same:
        # between two steps an element's next position is its position
        B.assume_forall((N, 3), lambda i, j: B.at(sc['next_positions'], i, j) == B.at(sc['positions'], i, j))

    class Flat(TideflatBase):
        def is_dry(self, p, t):
            pos['p'] = p
            codes = old['status_codes'] if same else pos['st']
            return D[codes == (FLAT if same else IN)]
    m = TideflatMap(land, Flat())
    t = B.datetime('t')
    if same:
        m.refloat_elements(sc, B.real('dt', lo=1, hi=86400), t)
        outcome(B, sc, old, N, k, wet=lambda i: Not(B.at(D, i)))
    else:
        def beach(sc_, model_time=None):
            pos['st'] = sc_['status_codes'].copy()
        B.patch(land, 'beach_elements', beach)
        m.beach_elements(sc, t)
        B.forall('dry-ones-strand', (N,), lambda i: B.at(sc['status_codes'], i) == (
            Ite(And(B.at(old['status_codes'], i) == IN, B.at(D, i)), FLAT, B.at(old['status_codes'], i)) if B.symbolic else
            (FLAT if B.at(old['status_codes'], i) == IN and B.at(D, i) else B.at(old['status_codes'], i))))
        B.forall('nothing-moves', (N, 3), lambda i, j: And(B.at(sc['next_positions'], i, j) == B.at(old['next_positions'], i, j),
                                                            B.at(sc['positions'], i, j) == B.at(old['positions'], i, j)))


def simple_flat(B):
    """bounded: the single-polygon flat is dry exactly inside its polygon during its dry time"""
    import datetime
    t0 = datetime.datetime(2020, 1, 1)
    h = lambda x: t0 + datetime.timedelta(hours=x)
    a, b = B.real('a', lo=-5, hi=5), B.real('b', lo=.1, hi=5)
    s, e = sorted((B.int('s', lo=0, hi=20), B.int('e', lo=0, hi=20)))
    f = SimpleTideflat([(a, a), (a, a + b), (a + b, a + b), (a + b, a)], h(s), h(e))
    n = B.int('n', lo=1, hi=9)
    p = np.array([(a + b * (B.real('x', lo=-1, hi=2) + 1e-3), a + b * (B.real('y', lo=-1, hi=2) + 1e-3), 0.) for _ in range(n)])
    t = B.choice('t', [s - 1, s, (s + e) / 2., e, e + 1])
    inside = (p[:, 0] > a) & (p[:, 0] < a + b) & (p[:, 1] > a) & (p[:, 1] < a + b)
    exp = inside & (s <= t <= e)
    B.prove('dry-inside-while-dry', np.array_equal(f.is_dry(p, h(t)), exp), [exp, f.is_dry(p, h(t))])
    B.prove('wet-otherwise', np.array_equal(f.is_wet(p, h(t)), ~exp))


def released(B):
    """Model.release_elements: what has just been released on land is stranded there and floats again there; elements
    released before are left alone"""
    from gnome.model import Model
    import gnome.model as gm
    W = B.dim('W', 1)
    n = W.n
    k = B.int('k', lo=0) if B.symbolic else B.int('k', lo=0, hi=n)
    B.assume(k <= n)
    a = dict(positions=B.array('pos', (W, 3), lo=-100, hi=100), next_positions=B.array('nxt', (W, 3), lo=-100, hi=100),
             last_water_positions=B.array('lw', (W, 3), lo=-100, hi=100), status_codes=B.array('st', (W,), dtype=np.int16, choices=ST),
             mass=B.array('mass', (W,), lo=0, hi=1000))
    # contract of SpillContainer.release_elements: the last k elements are new and in the water
    B.assume_forall((W,), lambda i: Implies(i >= n - k, B.at(old['status_codes'], i) == IN)) if B.symbolic else None
    sc = make_sc(B, a, None)
    if not B.symbolic:
        a['status_codes'][n - k:] = IN
    old = {x: v.copy() for x, v in a.items()}
    # contract of the map: a point lies on land or not, by its place alone
    half = B.real('half', lo=-50, hi=50)
    m = Model()
    B.patch(m.map, 'on_land_points', lambda p: p[:, 0] > half)
    B.patch(sc, 'release_elements', lambda *x, **y: k)
    B.patch(m, 'spills', Obj(items=lambda: [sc]))
    B.patch(gm.aggregated_data, 'aggregate', lambda *x, **y: None)
    m.release_elements(T0, T0 + datetime.timedelta(seconds=900))
    land = lambda i: B.at(old['positions'], i, 0) > half
    new = lambda i: i >= n - k

    def status(i):
        s, s0 = B.at(sc['status_codes'], i), B.at(old['status_codes'], i)
        return And(Implies(new(i), And(Implies(land(i), s == LAND), Implies(Not(land(i)), s == IN))), Implies(Not(new(i)), s == s0))
    B.forall('released-on-land-strands', (W,), status)

    def last(i, j):
        l, l0, p = B.at(sc['last_water_positions'], i, j), B.at(old['last_water_positions'], i, j), B.at(old['positions'], i, j)
        return And(Implies(And(new(i), land(i)), l == p), Implies(Not(new(i)), l == l0))
    B.forall('floats-again-where-released', (W, 3), last)
    B.forall('released-stay-put', (W, 3), lambda i, j: B.at(sc['positions'], i, j) == B.at(old['positions'], i, j))
    B.forall('mass-untouched', (W,), lambda i: B.at(sc['mass'], i) == B.at(old['mass'], i))


def whole_run(B):
    """bounded: along whole runs a stranded element stays put until it floats again, from its last water position"""
    from . import modelgen as M
    still = B.choice('still', [0, 0, 1])
    w = M.build(B, land=True, weather=False, backward=True)
    half = w.map.refloat_halflife
    if still:
        from gnome.movers import SimpleMover
        # one strong push in the first step(s), then only refloating
        for m in w.movers:
            m.on = False
        v = w.size / w.step
        w.model.movers += SimpleMover((B.real('pu', lo=-v, hi=v), B.real('pv', lo=-v, hi=v), 0.), active_range=(w.start - M.secs(9 * w.step), w.start + M.secs(int(w.step * 1.5))))
    prev = {}
    for k, step in enumerate(M.run(w)):
        for c, o in enumerate(step):
            cur = {int(i): (int(s), tuple(p), tuple(l)) for i, s, p, l in zip(o['id'], o['status_codes'], o['positions'], o['last_water_positions'])}
            for i, (s0, p0, l0) in prev.get(c, {}).items():
                if s0 != LAND:
                    continue
                # a stranded one may only vanish through a refloat and a move off the map
                B.prove('stranded-ones-remain', i in cur or half >= 0, [i])
                if i not in cur:
                    continue
                s, p, l = cur[i]
                if half < 0:
                    B.prove('never-refloats', s == LAND)
                if s == LAND and p == p0:
                    continue
                if s == LAND:
                    # floated and stranded again within the step, or put on the centre of the cell it was released on
                    B.prove('stranded-stays-put', half > 0 or np.array_equal(*(w.proj.to_pixel(np.array([x]), asint=True) for x in (p0, p))), [i, p0, p])
                    continue
                if half < 0:
                    continue
                if still and k > 2:
                    B.prove('floats-where-it-last-floated', np.allclose(p, l0, atol=1e-12), [p, l0])
            prev[c] = cur


HARNESSES = [
    H('refloat', refloat, functions=['RasterMap.refloat_elements', 'ParamMap.refloat_elements', 'GnomeMap.refloat_halflife']),
    H('released', released, functions=['Model.release_elements']),
    H('no_land', no_land, functions=['GnomeMap.refloat_elements']),
    H('tideflat', tideflat, functions=['TideflatMap.beach_elements', 'TideflatMap.refloat_elements', 'TideflatBase.is_wet']),
    H('probability', probability, sym=False, conc=40, functions=['RasterMap.refloat_elements']),
    H('simple_flat', simple_flat, sym=False, conc=300, functions=['SimpleTideflat.is_dry']),
    H('whole_run', whole_run, sym=False, conc=250, conc_budget=40, functions=['Model.move_elements', 'RasterMap.refloat_elements']),
]
ASSUMPTIONS = ['numpy.random.uniform under its documented contract in the proofs; the probability itself is a bounded statistical check (6 sigma)']
