"""C08 beached / off-map bookkeeping"""
from .common import *
from gnome.basic_types import oil_status
from gnome.maps import GnomeMap

IN, LAND, OFF, GONE = oil_status.in_water, oil_status.on_land, oil_status.off_maps, oil_status.to_be_removed
ST = [0, IN, LAND, OFF, 10, GONE]


def state(B, N, st=ST):
    return dict(positions=B.array('pos', (N, 3), lo=-100, hi=100), next_positions=B.array('nxt', (N, 3), lo=-100, hi=100),
                last_water_positions=B.array('lw', (N, 3), lo=-100, hi=100), status_codes=B.array('st', (N,), dtype=np.int16, choices=st),
                mass=B.array('mass', (N,), lo=0, hi=1000))


def bounds(B, m, N):
    """contract of the point-in-polygon test: some answer per element (its own check: C14)"""
    inside = B.array('inside', (N,), dtype=bool)
    B.patch(m, 'on_map', lambda c: inside)
    return inside


def off_map(B):
    """a map without land: exactly the elements outside its bounds are marked, their mass is added once, nothing rises above the surface"""
    N = B.dim('N', 1)
    a = state(B, N)
    sc = make_sc(B, a, None)
    old = {k: v.copy() for k, v in a.items()}
    m = GnomeMap()
    inside = bounds(B, m, N)
    was = B.real('was', lo=0, hi=1e6)
    sc.mass_balance = dict(off_maps=was, beached=B.real('wasb', lo=0, hi=1e6))
    m.beach_elements(sc)
    B.forall('exactly-the-outside-ones-are-marked', (N,), lambda i: B.at(sc['status_codes'], i) == (
        Ite(B.at(inside, i), B.at(old['status_codes'], i), OFF) if B.symbolic else (B.at(old['status_codes'], i) if B.at(inside, i) else OFF)))
    B.forall('depth-clipped', (N,), lambda i: Or(And(B.at(old['next_positions'], i, 2) >= 0, B.at(sc['next_positions'], i, 2) == B.at(old['next_positions'], i, 2)),
                                               And(B.at(old['next_positions'], i, 2) < 0, B.at(sc['next_positions'], i, 2) == 0)))
    B.forall('move-kept', (N, 2), lambda i, j: B.at(sc['next_positions'], i, j) == B.at(old['next_positions'], i, j))
    B.forall('rest-untouched', (N, 3), lambda i, j: And(B.at(sc['positions'], i, j) == B.at(old['positions'], i, j),
                                                       B.at(sc['last_water_positions'], i, j) == B.at(old['last_water_positions'], i, j), B.at(sc['mass'], i) == B.at(old['mass'], i)))
    st = sc['status_codes']
    B.sum_eq('beached-is-the-mass-on-land', sc.mass_balance['beached'], old['mass'][st == LAND].sum())
    B.sum_eq('off-map-mass-is-added-once', sc.mass_balance['off_maps'], was + old['mass'][st == OFF].sum())


def raster(B):
    """a raster map: beached elements go to the land pixel reported, others keep their move; a zero half-life puts them back in the water"""
    from gnome.maps import RasterMap
    from gnome.utilities.projections import FlatEarthProjection
    N = B.dim('N', 1)
    a = state(B, N, [IN, LAND])
    sc = make_sc(B, a, None)
    old = {k: v.copy() for k, v in a.items()}
    half = B.choice('half', [0., 1., -1.])
    m = RasterMap(raster=np.zeros((20, 30), np.uint8), projection=FlatEarthProjection(((-10, -12), (12, 14)), (20, 30)), refloat_halflife=half)
    inside = bounds(B, m, N)
    hit = B.array('hit', (N,), dtype=bool)
    hx = B.array('hitpx', (N, 2), dtype=np.int32, lo=-100, hi=100)
    wx = B.array('watpx', (N, 2), dtype=np.int32, lo=-100, hi=100)
    B.assume_forall((N,), lambda i: Implies(B.at(old['status_codes'], i) == LAND, Not(B.at(hit, i))))

    def check(layers, ratios, start, end, st, last):
        # contract of check_land_layers: elements not on land may be stopped at a land pixel, next to a last water pixel
        st[hit] = LAND
        end[hit] = hx[hit]
        last[hit] = wx[hit]
    B.patch(m, '_check_land_layers', check)
    sc.mass_balance = dict(off_maps=0., beached=0.)
    P = m.projection
    m.beach_elements(sc)
    hl, wl = P.to_lonlat(hx), P.to_lonlat(wx)
    tol = 1e-9
    st = sc['status_codes']

    def status(i):
        was, h, ins, s = B.at(old['status_codes'], i), B.at(hit, i), B.at(inside, i), B.at(st, i)
        stuck = Or(h, was == LAND)
        if half == 0:
            return And(Implies(ins, s == IN), Implies(Not(ins), s == OFF))
        return And(Implies(Not(ins), s == OFF), Implies(And(ins, stuck), s == LAND), Implies(And(ins, Not(stuck)), s == was))
    B.forall('status', (N,), status)

    def place(i, j):
        n, o = B.at(sc['next_positions'], i, j), B.at(old['next_positions'], i, j)
        h = B.at(hit, i)
        tgt = B.at(wl if half == 0 else hl, i, j)
        return Or(B.at(old['status_codes'], i) == LAND, And(Implies(h, B.close(n, tgt, tol)), Implies(Not(h), n == o)))
    B.forall('placed-on-the-land-pixel-else-moved', (N, 2), place)
    B.forall('depth-kept', (N,), lambda i: Or(And(B.at(old['next_positions'], i, 2) >= 0, B.at(sc['next_positions'], i, 2) == B.at(old['next_positions'], i, 2)),
                                            And(B.at(old['next_positions'], i, 2) < 0, B.at(sc['next_positions'], i, 2) == 0)))
    B.forall('last-water-position', (N, 2), lambda i, j: Or(B.at(old['status_codes'], i) == LAND, And(
        Implies(B.at(hit, i), B.close(B.at(sc['last_water_positions'], i, j), B.at(wl, i, j), tol)),
        Implies(Not(B.at(hit, i)), B.at(sc['last_water_positions'], i, j) == B.at(old['last_water_positions'], i, j)))))
    B.forall('mass-and-start-untouched', (N, 3), lambda i, j: And(B.at(sc['positions'], i, j) == B.at(old['positions'], i, j), B.at(sc['mass'], i) == B.at(old['mass'], i)))
    B.sum_eq('beached-is-the-mass-on-land', sc.mass_balance['beached'], old['mass'][st == LAND].sum())
    B.sum_eq('off-map-mass-is-added-once', sc.mass_balance['off_maps'], old['mass'][st == OFF].sum())


def whole_run(B):
    """bounded: whole runs; independent recount of beached, off-map, floating and removed elements"""
    from . import modelgen as M
    w = M.build(B, weather=B.bool('weather'), backward=True)
    marks = []
    real = w.map._set_off_map_status
    lost = {}

    def watch(sc):
        real(sc)
        s = sc['status_codes'] == OFF
        lost.setdefault(id(sc), []).append((sc['id'][s].tolist(), float(sc['mass'][s].sum())))
        out = ~w.map.on_map(sc['next_positions'])
        B.prove('outside-is-marked', np.array_equal(out, s), [out, s])
    B.patch(w.map, '_set_off_map_status', watch)
    prev = {}
    seen = {}
    for k, step in enumerate(M.run(w, after_step=lambda m: marks.append({c: list(L) for c, L in lost.items()}))):
        for c, (o, sc) in enumerate(zip(step, w.model.spills.items())):
            L = marks[k].get(id(sc), [])
            gone = [i for ids, _ in L for i in ids]
            tot = sum(x for _, x in L)
            B.prove('off-map-mass', abs(o.mb.get('off_maps', 0.) - tot) <= 1e-6 * max(tot, 1), [o.mb.get('off_maps'), tot])
            ids = set(o['id'].tolist())
            moved = np.isin(o['id'], list(seen.get(c, ())))     # just released ones have not been looked at yet
            B.prove('inside-the-map', not moved.any() or bool(np.all(w.map.on_map(o['positions'][moved]))))
            B.prove('left-elements-are-gone', not ids & set(gone) and len(gone) == len(set(gone)), [gone, ids])
            B.prove('no-other-element-vanishes', seen.get(c, set()) - ids <= set(gone), [seen.get(c), ids, gone])
            seen[c] = seen.get(c, set()) | ids
            seen[c] -= set(gone)
            B.prove('no-marked-element-remains', not np.isin(o['status_codes'], [OFF, GONE]).any())
            if w.weather and len(o):
                fl = o['mass'][(o['status_codes'] == IN) & (o['positions'][:, 2] == 0)].sum()
                B.prove('floating-is-the-mass-at-the-surface', abs(o.mb['floating'] - fl) <= 1e-6 * max(fl, 1), [o.mb['floating'], fl])


def param_map(B):
    """bounded: straight-shoreline map: counted once"""
    import warnings
    warnings.simplefilter('ignore')
    from gnome.maps.map import ParamMap
    m = ParamMap(center=(1., 2.), distance=B.choice('dist', [1000., 30000.]), bearing=B.real('bear', lo=1, hi=359))
    n = B.int('n', lo=1, hi=8)
    d = m.map_bounds.max(0) - np.array([1., 2.])
    st = np.full(n, IN, np.int16)
    pos = np.tile((1., 2., 0.), (n, 1))
    nxt = np.array([(1. + d[0] * B.real('x', lo=-1.5, hi=1.5), 2. + d[1] * B.real('y', lo=-1.5, hi=1.5), B.choice('z', [0., -1., 3.])) for _ in range(n)])
    sc = {}
    class SC(dict):
        pass
    sc = SC(positions=pos, next_positions=nxt.copy(), status_codes=st, last_water_positions=np.zeros((n, 3)), mass=np.arange(1., n + 1))
    was = B.real('was', lo=0, hi=100)
    sc.mass_balance = dict(off_maps=was, beached=0.)
    m.beach_elements(sc)
    B.prove('off-map-mass-is-added-once', abs(sc.mass_balance['off_maps'] - was - sc['mass'][st == OFF].sum()) < 1e-9, [sc.mass_balance, st])
    B.prove('beached-is-the-mass-on-land', sc.mass_balance['beached'] == sc['mass'][st == LAND].sum())
    B.prove('outside-is-marked', np.array_equal(~m.on_map(sc['next_positions']), st == OFF))


HARNESSES = [
    H('off_map', off_map, functions=['GnomeMap.beach_elements', 'GnomeMap._set_off_map_status', 'GnomeMap.resurface_airborne_elements']),
    H('raster', raster, functions=['RasterMap.beach_elements', 'RasterMap._set_off_map_status']),
    H('param_map', param_map, sym=False, functions=['ParamMap.beach_elements']),
    H('whole_run', whole_run, sym=False, conc=250, conc_budget=40, functions=['Model.move_elements', 'SpillContainer.model_step_is_done', 'aggregate']),
]
