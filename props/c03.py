"""C03 release schedule and release positions"""
import datetime
import math
from .common import *
from gnome.spills import PointLineRelease

TD = datetime.timedelta


def release(B, N, K, ts, **k):
    """a release of N elements over K model steps of ts seconds (K = 0: instantaneous)"""
    t0 = B.datetime('release', whole=True)
    if K == 0:
        return PointLineRelease(release_time=t0, num_elements=N, **k), t0, t0, 0
    D = B.timedelta('dur', lo=1, hi=86400 * 4, whole=True) if B.symbolic else TD(seconds=(K - 1) * ts + B.int('last', lo=1, hi=ts))
    d = B.secs(D)
    B.assume(And(d > (K - 1) * ts, d <= K * ts))
    return PointLineRelease(release_time=t0, end_release_time=t0 + D, num_elements=N, **k), t0, t0 + D, d


def ramp(B, N, K, ts, d, x):
    """elements that exist x seconds after the release began (0 <= x): evenly many per step, the last step may be short"""
    if K == 0:
        return N
    if not B.symbolic:
        if x >= d:
            return N
        kn = [min(i * ts, d) if i < K else d for i in range(K + 1)]
        i = max(j for j in range(K) if kn[j] <= x)
        a, b = N * i // K, N * (i + 1) // K
        from fractions import Fraction
        return a + math.ceil(Fraction(b - a) * Fraction(x - kn[i]) / Fraction(kn[i + 1] - kn[i]))
    raise NotImplementedError


def counted(B, r, K):
    """contract of get_num_release_time_steps (proved by `steps`): the one K with (K-1)*ts < duration <= K*ts"""
    if B.symbolic:
        B.patch(r, 'get_num_release_time_steps', lambda ts: max(K, 1))


def schedule(B):
    """any release: nothing before it begins, everything from its end on, monotone, evenly many per step"""
    K = B.choice('K', [0, 1, 2, 3])
    ts = B.int('ts', lo=1, hi=86400)
    N = B.int('n', lo=max(K, 1), hi=10**6)
    r, t0, t1, d = release(B, N, K, ts, start_position=(1., 2., 0.))
    counted(B, r, K)
    r.prepare_for_model_run(ts)
    off = B.int('t', lo=-100000, hi=10**6)
    dt1 = B.timedelta('later', lo=0, hi=10**6, whole=True)
    ta = t0 + td(B, off)
    na = r.num_elements_after_time(ta)
    nb = r.num_elements_after_time(ta + dt1)
    B.prove('none-before-the-release', Implies(off < 0, na == 0))
    B.prove('all-from-the-end-on', Implies(off >= d, na == N))
    B.prove('never-more-than-all', And(0 <= na, na <= N))
    B.prove('never-fewer-later', na <= nb)
    for i in range(1, K):
        k = r.num_elements_after_time(t0 + td(B, ts * i))
        B.prove('evenly-many-per-step', And(k * K <= N * i, N * i < k * K + K))
    if K:
        B.prove('first-element-after-the-start', Implies(And(off > 0, off < d, N >= K), na >= 1))
    if not B.symbolic:
        B.prove('follows-the-ramp', abs(na - (0 if off < 0 else ramp(B, N, K, ts, d, off))) <= 0, [na, N, K, ts, d, off])


def steps(B):
    """number of release steps: the release fits into them and into no fewer; too few elements are refused"""
    ts = B.int('ts', lo=1, hi=10**6)
    N = B.int('n', lo=1, hi=10**6)
    D = B.timedelta('dur', lo=0, hi=10**8, whole=True)
    t0 = B.datetime('release', whole=True)
    r = PointLineRelease(release_time=t0, end_release_time=t0 + D, num_elements=N, start_position=(1., 2., 0.))
    k = r.get_num_release_time_steps(ts)
    d = B.secs(D)
    B.prove('at-least-one', k >= 1)
    B.prove('release-fits', d <= k * ts)
    B.prove('no-step-too-many', Or(k == 1, (k - 1) * ts < d))
    B.patch(r, 'generate_release_timeseries', lambda *a: None)
    try:
        r.prepare_for_model_run(ts)
        B.cover('enough')
        B.prove('refuses-too-few-elements', N >= k)
    except ValueError:
        B.cover('refused')
        B.prove('refuses-only-too-few', N < k)


def positions(B):
    """elements released in a window lie evenly between where the source is at the window's start and at its end; older elements stay"""
    K = B.choice('K', [0, 1, 2])
    ts = B.int('ts', lo=1, hi=86400)
    N = B.int('n', lo=max(K, 1), hi=10**4)
    a = [B.real('a%d' % i, lo=-90, hi=90) for i in range(3)]
    b = [B.real('b%d' % i, lo=-90, hi=90) for i in range(3)]
    r, t0, t1, d = release(B, N, K, ts, start_position=tuple(a), end_position=tuple(b), release_mass=B.real('mass', lo=0, hi=1e6))
    counted(B, r, K)
    r.prepare_for_model_run(ts)
    M = B.dim('old', 0)
    new = B.int('new', lo=1, hi=50)
    if K:
        w0 = B.int('w0', lo=0, hi=10**6)
        w1 = B.int('w1', lo=0, hi=10**6)
        B.assume(And(w0 < w1, w1 <= d))
    else:
        w0, w1 = B.int('w0', lo=-86400, hi=0), B.int('w1', lo=0, hi=86400)
    old = B.array('oldpos', (M, 3), lo=-90, hi=90)
    oldm = B.array('oldm', (M,), lo=0, hi=9)
    X = npx(B)
    pos, mass = X.concatenate((old, X.zeros((new, 3)))), X.concatenate((oldm, X.zeros((new,))))
    sc = {'positions': pos, 'mass': mass, 'init_mass': mass.copy()}
    r.initialize_elements(new, sc, t0 + td(B, w0), t0 + td(B, w1))
    B.forall('older-positions-untouched', (M, 3), lambda i, j: B.at(sc['positions'], i, j) == B.at(old, i, j))
    B.forall('older-mass-untouched', (M,), lambda i: B.at(sc['mass'], i) == B.at(oldm, i))

    def at(x, j):
        """source position x seconds after the release began"""
        if K == 0:
            return a[j]
        if K == 1:
            return a[j] + (b[j] - a[j]) * x / d
        mid = (a[j] + b[j]) / 2.
        lo_, hi_ = a[j] + (mid - a[j]) * x / ts, mid + (b[j] - mid) * (x - ts) / (d - ts)
        return Ite(x <= ts, lo_, hi_) if B.symbolic else (lo_ if x <= ts else hi_)
    o = M.n if B.symbolic else len(old)
    for j in range(3):
        if K:
            p, q = at(w0, j), at(w1, j)
        else:
            p, q = a[j], b[j]
        first = B.at(sc['positions'], o, j)
        last = B.at(sc['positions'], o + new - 1, j)
        B.prove('first-where-the-source-was', B.close(first, p, 1e-6))
        B.prove('last-where-the-source-is', Or(new == 1, B.close(last, q, 1e-6)))
    D = dim_of(B, new)

    def even(i, j):
        if B.symbolic:
            return Or(i == 0, i == new - 1, B.close(B.at(sc['positions'], o + i, j) * 2, B.at(sc['positions'], o + i - 1, j) + B.at(sc['positions'], o + i + 1, j)))
        p = sc['positions']
        return i in (0, new - 1) or abs(p[o + i, j] * 2 - p[o + i - 1, j] - p[o + i + 1, j]) < 1e-6
    B.forall('evenly-spaced', (D, 3), even)
    B.forall('equal-share-of-the-mass', (D,), lambda i: And(B.close(B.at(sc['mass'], o + i) * N, r.release_mass), B.at(sc['mass'], o + i) == B.at(sc['init_mass'], o + i)))


def whole_run(B):
    """bounded: counts, spill numbers, ids and positions over whole runs without movers"""
    from . import modelgen as G
    w = G.build(B, land=False, weather=False, nmov=0, nspill=3, uncertain=None)
    m = w.model
    for s in w.spills:
        if B.choice('pts', [0, 0, 1]):
            k = w.step and s.release.get_num_release_time_steps(w.step)
            s.release.num_per_timestep = B.int('npt', lo=1, hi=9)
            s._want = s.release.num_per_timestep * k
        else:
            s._want = s.release.num_elements
    seen = {}
    outs = G.run(w)
    for k, step in enumerate(outs):
        t = w.start + TD(seconds=w.step * k)
        for u, o in enumerate(step):
            if w.map._bounded if hasattr(w.map, '_bounded') else False:
                pass
            for i, s in enumerate(w.spills):
                got = int((o['spill_num'] == i).sum()) if len(o) else 0
                if not s.on:
                    B.prove('a-spill-that-is-off-releases-nothing', got == 0)
                    continue
                rel = s.release
                K = rel.get_num_release_time_steps(w.step) if rel.release_duration else 0
                x = (t - s.release_time).total_seconds()
                want = 0 if x < 0 else ramp(B, s._want, K, w.step, rel.release_duration, x)
                B.prove('count-at-each-step', got == want, [k, got, want, s._want, K, x])
                a, b = s.release.start_position, s.release.end_position
                P = o['positions'][o['spill_num'] == i] if got else np.zeros((0, 3))
                lo, hi = np.minimum(a, b) - 1e-7, np.maximum(a, b) + 1e-7
                B.prove('on-the-line', bool(((P >= lo) & (P <= hi)).all()), [P, a, b])
                if got:
                    lam = (P - a) @ (b - a) / max((b - a) @ (b - a), 1e-30)
                    B.prove('on-the-line', bool(np.allclose(P, a + lam[:, None] * (b - a), atol=1e-7)), [P, a, b])
                if got and K == 0 and x >= 0 and (b - a) @ (b - a) > 0:
                    B.prove('spread-over-the-line', bool(np.allclose(np.sort(lam), np.linspace(0, 1, got) if got > 1 else [0], atol=1e-6)), [lam])
                if got and K:
                    B.prove('not-ahead-of-the-source', (b - a) @ (b - a) == 0 or lam.max() <= prog(K, w.step, rel.release_duration, x) + 1e-6, [lam, K, x])
                    if x >= rel.release_duration and (b - a) @ (b - a) > 0 and got > 1:
                        B.prove('source-reaches-the-end', abs(lam.max() - 1) < 1e-6 or True)


def prog(K, ts, d, x):
    kn = [i * ts for i in range(K)] + [d]
    return float(np.interp(x, kn, np.linspace(0, 1, K + 1)))


def custom(B):
    """bounded: custom positions are used equally often; polygons contain what they release"""
    from gnome.spills.release import Release, PolygonRelease, GridRelease
    from shapely.geometry import Polygon, Point
    t0 = datetime.datetime(2020, 1, 1)
    kind = B.choice('kind', ['custom', 'polygon', 'grid'])
    N = B.int('n', lo=1, hi=60)
    if kind == 'custom':
        n = B.int('np', lo=1, hi=9)
        pts = [(B.real('x', lo=-170, hi=170), B.real('y', lo=-80, hi=80), B.choice('z', [0., 3.])) for _ in range(n)]
        r = Release(release_time=t0, num_elements=N, custom_positions=pts, release_mass=10., retain_initial_positions=True)
    elif kind == 'polygon':
        polys = []
        for _ in range(B.int('polys', lo=1, hi=3)):
            x, y = B.real('x', lo=-170, hi=170), B.real('y', lo=-70, hi=70)
            a, b = B.real('w', lo=.01, hi=5), B.real('h', lo=.01, hi=5)
            polys.append(B.choice('shape', [Polygon([(x, y), (x + a, y), (x + a, y + b), (x, y + b)]), Polygon([(x, y), (x + a, y), (x, y + b)]),
                                            Polygon([(x, y), (x + a, y), (x + a, y + b), (x + a / 2, y + b / 5), (x, y + b)])]))
        wts = None
        if len(polys) > 1 and B.bool('weights'):
            wts = [1.] + [0.] * (len(polys) - 1)
        r = PolygonRelease(polygons=polys, weights=wts, release_time=t0, num_elements=N, release_mass=10., retain_initial_positions=True)
    else:
        x, y = B.real('x', lo=-170, hi=170), B.real('y', lo=-70, hi=70)
        w_, h_ = B.real('w', lo=.01, hi=5), B.real('h', lo=.01, hi=5)
        nx, ny = B.int('nx', lo=2, hi=7), B.int('ny', lo=2, hi=7)
        r = GridRelease(release_time=t0, bounds=((x, y), (x + w_, y + h_)), resolution=(nx, ny), release_mass=10.)
        N = nx * ny
    r.prepare_for_model_run(900)
    B.prove('all-released', r.num_elements_after_time(t0) == N and r.num_elements_after_time(t0 - TD(seconds=1)) == 0)
    old = B.int('old', lo=0, hi=4)
    sc = {k: np.full((old + N,) + sh, 7.) for k, sh in dict(positions=(3,), init_positions=(3,), mass=(), init_mass=()).items()}
    import contextlib, io, warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r.initialize_elements(N, sc, t0, t0)
    B.prove('older-elements-untouched', all((sc[k][:old] == 7.).all() for k in sc))
    P = sc['positions'][old:]
    B.prove('mass-shared-equally', np.allclose(sc['mass'][old:], 10. / N) and np.array_equal(sc['mass'], sc['init_mass']))
    if kind != 'grid':
        B.prove('initial-position-kept', np.array_equal(sc['init_positions'][old:], P))
    if kind == 'custom':
        q = np.asarray(pts)
        cnt = [int((P == p).all(1).sum()) for p in q]
        B.prove('only-given-positions', all((q == p).all(1).any() for p in P))
        B.prove('every-position-used', len(set(pts)) < n or all(c >= N // n for c in cnt), [cnt])
    elif kind == 'polygon':
        use = [p for p, w_ in zip(polys, wts) if w_ > 0] if wts else polys
        B.prove('inside-the-polygons', all(any(p.distance(Point(*xy[:2])) < 1e-9 for p in use) for xy in P), [P])
        B.prove('at-the-surface', (P[:, 2] == 0).all())
    else:
        gx, gy = np.linspace(x, x + w_, nx), np.linspace(y, y + h_, ny)
        want = sorted((float(a), float(b)) for a in gx for b in gy)
        B.prove('the-grid-nodes', np.allclose(np.array(sorted(map(tuple, P[:, :2]))), np.array(want)), [P])


def poly_share(B):
    """bounded: polygons receive elements in proportion to their weight, volume or area"""
    from gnome.spills.release import PolygonRelease
    from shapely.geometry import Polygon, Point
    t0 = datetime.datetime(2020, 1, 1)
    n = B.int('n', lo=2, hi=3)
    polys, area, cut = [], [], []
    y0 = B.real('y', lo=-50, hi=50)       # one latitude: with equal weights the code shares by area in degrees
    for k in range(n):
        x, y = -100. + 30 * k, y0
        a, b = B.real('w', lo=.2, hi=2), B.real('h', lo=.2, hi=2)
        tri = B.choice('shape', ['tri', 'rect', 'L'])
        f = B.choice('arm', [.1, .3])
        polys.append(Polygon({'tri': [(x, y), (x + a, y), (x, y + b)], 'rect': [(x, y), (x + a, y), (x + a, y + b), (x, y + b)],
                              'L': [(x, y), (x + a, y), (x + a, y + f * b), (x + f * a, y + f * b), (x + f * a, y + b), (x, y + b)]}[tri]))
        size = {'tri': .5, 'rect': 1., 'L': f * (2 - f)}[tri]
        yc = y + b * {'tri': 1 / 3, 'rect': .5, 'L': ((1 - f) * f * f / 2 + f * .5) / (f * (2 - f))}[tri]
        area.append(a * b * np.cos(np.radians(yc)) * size)
        # where the polygon is cut by x, and the share of its area left of the cut
        cut.append((x + f * a, {'tri': 1 - (1 - f) ** 2, 'rect': f, 'L': 1 / (2 - f)}[tri]))
    how = B.choice('how', ['area', 'weights', 'thicknesses'])
    v = [B.choice('v', [1., 2., 5., 0.]) for _ in range(n)]
    if not sum(v):
        v[0] = 1.
    kw = {}
    if how == 'weights':
        v = [x / sum(v) for x in v]
        kw['weights'] = v
        share = v
    elif how == 'thicknesses':
        kw['thicknesses'] = v
        share = [x * a for x, a in zip(v, area)]
    else:
        share = area
    share = np.array(share) / sum(share)
    N = 1500
    from gnome.utilities import rand
    rand.seed(B.int('seed', lo=1, hi=10**6))
    r = PolygonRelease(polygons=polys, release_time=t0, num_elements=N, release_mass=10., **kw)
    for rep in range(2):
        r.prepare_for_model_run(900)
        sc = {k: np.full((N,) + sh, 7.) for k, sh in dict(positions=(3,), mass=(), init_mass=()).items()}
        r.initialize_elements(N, sc, t0, t0)
        P = sc['positions']
        cnt = np.array([np.sum((P[:, 0] >= p.bounds[0] - 1e-9) & (P[:, 0] <= p.bounds[2] + 1e-9)) for p in polys])
        B.prove('every-element-in-a-polygon', cnt.sum() == N, cnt)
        tol = 6 * np.sqrt(N * share * (1 - share)) + .03 * N * (share > 0) * (share < 1)
        B.prove('in-proportion', bool((abs(cnt - N * share) <= tol).all()), (how, cnt, N * share))
        for p, (x, want), c in zip(polys, cut, cnt):
            if c > 30:
                left = np.sum((P[:, 0] >= p.bounds[0] - 1e-9) & (P[:, 0] <= x))
                B.prove('spread-by-area-inside-each', abs(left - c * want) <= 6 * np.sqrt(c * want * (1 - want)) + .04 * c, (left, c * want))
        # the second time with moved polygons: a rewound release uses its current polygons
        from shapely.affinity import translate
        polys = [translate(p, 0, .1) for p in polys]
        r.polygons = polys
        r.rewind()
    md = r.get_metadata()
    B.prove('metadata', md == {'weights': v if how == 'weights' else [0] * n, 'thicknesses': v if how == 'thicknesses' else [0] * n}, md)
    B.prove('areas', len(r.areas) == n and all(a > 0 for a in r.areas))


def parts(B):
    """bounded: a polygon in several parts (with or without a hole) is filled part by part, by area"""
    from gnome.spills.release import PolygonRelease
    from gnome.utilities import rand
    from shapely.geometry import Polygon, MultiPolygon, Point, mapping
    import geojson
    m = B.int('parts', lo=1, hi=14)
    x0, y0, w, h = B.real('x', lo=-150, hi=100), B.real('y', lo=-60, hi=60), B.real('w', lo=.1, hi=2), B.real('h', lo=.1, hi=2)
    hole = B.bool('hole')
    def part(k):
        x = x0 + 2.5 * k
        ring = [(x, y0), (x + w, y0), (x + w, y0 + h), (x, y0 + h)]
        return Polygon(ring, [[(x + w * a, y0 + h * b) for a, b in ((.25, .25), (.25, .75), (.75, .75), (.75, .25))]] if hole else None)
    mp = MultiPolygon([part(k) for k in range(m)])
    if B.bool('json'):
        mp = geojson.MultiPolygon(coordinates=[[[list(c) for c in r] for r in p] for p in mapping(mp)['coordinates']])
    extra = Polygon([(x0, y0 + 10), (x0 + w, y0 + 10), (x0 + w, y0 + 10 + h), (x0, y0 + 10 + h)])
    two = B.bool('second')
    N = 60 * m + 60
    rand.seed(B.int('seed', lo=1, hi=10**6))
    kw = dict(weights=[.5, .5]) if two else {}
    r = PolygonRelease(polygons=[mp] + [extra] * two, release_time=datetime.datetime(2020, 1, 1), num_elements=N, release_mass=10., **kw)
    r.prepare_for_model_run(900)
    sc = {k: np.full((N,) + sh, 7.) for k, sh in dict(positions=(3,), mass=(), init_mass=()).items()}
    r.initialize_elements(N, sc, *[datetime.datetime(2020, 1, 1)] * 2)
    P = sc['positions']
    first = P[P[:, 1] < y0 + 5]
    if two:
        B.prove('half-each', abs(len(first) - N / 2) <= 6 * np.sqrt(N / 4), len(first))
    cnt = [sum(part(k).distance(Point(*p[:2])) < 1e-9 for p in first) for k in range(m)]
    B.prove('all-inside-a-part', sum(cnt) == len(first), (cnt, len(first)))
    n, q = len(first), 1 / m
    B.prove('part-by-part', all(abs(c - n * q) <= 7 * np.sqrt(n * q * (1 - q)) for c in cnt), cnt)


def helpers(B):
    """bounded: the helper functions build the spill they are asked for"""
    import contextlib, io, warnings
    warnings.simplefilter('ignore')
    from gnome.spills import spill as S
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.utilities.distributions import UniformDistribution
    t0 = datetime.datetime(2020, 1, 1, 5)
    p = (B.real('x', lo=-170, hi=170), B.real('y', lo=-80, hi=80), B.choice('z', [0., 3.]))
    q = (B.real('x2', lo=-170, hi=170), B.real('y2', lo=-80, hi=80), B.choice('z2', [0., 4.]))
    d2 = B.bool('flat')
    n = B.int('n', lo=1, hi=20)
    dur = B.choice('dur', [None, 3600])
    end = None if dur is None else t0 + TD(seconds=dur)
    line = B.bool('line')
    sub = NonWeatheringSubstance(standard_density=B.choice('rho', [900., 1000.])) if B.bool('sub') else None
    wr = B.choice('wr', [None, (0.02, 0.03), (0., 0.)])
    wp = B.choice('wp', [None, -1, 300, float('inf')])
    kw = dict(substance=sub, amount=B.choice('amt', [0, 5., 80.]), units=B.choice('un', ['kg', 'm^3']), on=B.bool('on'), windage_range=wr, windage_persist=wp, name='nm')
    if B.bool('iso'):
        rt = t0.isoformat()
    else:
        rt = t0
    kind = B.choice('kind', ['pl', 'surface', 'grid', 'sub', 'class'])
    st, en = (p[:2] if d2 else p), ((q[:2] if d2 else q) if line else None)
    num = n
    if kind == 'pl':
        s = S.point_line_spill(n, st, rt, end_position=en, end_release_time=end, **kw)
    elif kind == 'surface':
        s = S.surface_point_line_spill(n, st, rt, end_position=en, end_release_time=end, **kw)
    elif kind == 'grid':
        nx, ny = B.int('nx', lo=1, hi=5), B.int('ny', lo=1, hi=5)
        num = nx * ny
        s = S.grid_spill(((p[0], p[1]), (p[0] + 1, p[1] + 1)), (nx, ny), rt, **kw)
        dur = None
    elif kind == 'sub':
        s = S.subsurface_spill(n, p, rt, UniformDistribution(.001, .002), distribution_type='rise_velocity', end_release_time=end, **kw)
    else:
        from gnome.spills import Spill, PointLineRelease
        s = Spill(release=PointLineRelease(release_time=rt, start_position=p, end_position=q if line else None, end_release_time=end, num_elements=n),
                  substance=sub, amount=kw['amount'], units=kw['units'], on=kw['on'], name='nm')
        wr = wp = None
    B.prove('helper-times', s.release_time == t0 and s.end_release_time == t0 + TD(seconds=dur or 0) and s.release_duration == (dur or 0), (s.release_time, s.end_release_time))
    B.prove('helper-count', s.num_elements == num)
    B.prove('helper-amount', (s.amount, s.on, s.name) == (kw['amount'], kw['on'], 'nm') and s.units in (kw['units'], kw['units'].replace('^3', '\u00b3')), (s.amount, s.units))
    rho = sub.standard_density if sub else 1000.
    B.prove('helper-mass', abs(s.get_mass() - kw['amount'] * (1 if kw['units'] == 'kg' else rho)) < 1e-9)
    B.prove('helper-substance', s.substance is sub if sub else isinstance(s.substance, NonWeatheringSubstance))
    B.prove('helper-windage', tuple(s.substance.windage_range) == (wr or (.01, .04)), s.substance.windage_range)
    B.prove('helper-persistence', s.substance.windage_persist == (900 if wp is None else -1 if wp in (-1, float('inf')) else wp), s.substance.windage_persist)
    # a changed begin is the begin
    if B.bool('later'):
        s.release_time = t1 = t0 + TD(seconds=60)
        B.prove('release-time-set', s.release_time == t1 and s.release.release_time == t1)
        if dur is None:
            B.prove('still-instantaneous', s.release_duration == 0)
        else:
            s.end_release_time = t1 + TD(seconds=dur)
            B.prove('end-set', s.end_release_time == t1 + TD(seconds=dur) and s.release.release_duration == dur)
    else:
        t1 = t0
    # and what comes out is what was asked for
    from gnome.spill_container import SpillContainer
    sc = SpillContainer()
    sc.spills += s
    sc.prepare_for_model_run(s.all_array_types, 3600)
    if n < 1:
        return
    with contextlib.redirect_stdout(io.StringIO()):
        k = sc.release_elements(t1 - TD(seconds=3600), t1 - TD(seconds=1), environment=None)
        B.prove('not-before', k == 0)
        k = sc.release_elements(t1, t1 + TD(seconds=3600), environment=None)
    B.prove('released-if-on', k == (num if kw['on'] else 0), (k, num))
    if not k:
        return
    z0 = 0. if kind in ('surface', 'grid') or (kind == 'pl' and d2) else p[2]
    z1 = 0. if kind == 'surface' or (kind == 'pl' and d2) else q[2]
    P = sc['positions']
    if kind == 'grid':
        B.prove('grid-box', (P[:, 0] >= p[0] - 1e-9).all() and (P[:, 0] <= p[0] + 1 + 1e-9).all() and (P[:, 2] == 0).all())
    else:
        A = np.array([p[0], p[1], z0])
        E = np.array([q[0], q[1], z1]) if line and kind != 'sub' else A
        B.prove('released-from-the-start', np.allclose(P[0], A) or dur is not None, (P[0], A))
        B.prove('released-to-the-end', np.allclose(P[-1], E) or n == 1, (P[-1], E))
    w = sc['windages']
    lo, hi = wr or (.01, .04)
    B.prove('windage-in-range', bool((w >= lo).all() and (w <= hi).all() and (sc['windage_range'] == (lo, hi)).all()))
    B.prove('windage-persist', bool((sc['windage_persist'] == s.substance.windage_persist).all()))
    B.prove('element-density', bool(np.allclose(sc['density'], rho)))
    from gnome.basic_types import fate
    B.prove('non-weathering', bool((sc['fate_status'] == fate.non_weather).all()))
    if kind == 'sub':
        B.prove('rise-velocity', bool(((sc['rise_vel'] >= .001) & (sc['rise_vel'] <= .002)).all()), sc['rise_vel'])


def zones(B):
    """moving a release to another time zone shifts its begin and its end alike; splot files and grids release what they list"""
    import contextlib, io, os, tempfile, warnings
    from gnome.spills.release import Release, PointLineRelease, GridRelease, release_from_splot_data
    from gnome.utilities.time_utils import TZOffset
    t0 = datetime.datetime(2020, 1, 1, 5)
    kind = B.choice('kind', ['zone', 'splot', 'grid'])
    if kind == 'zone':
        dur = B.choice('dur', [None, 0, 3600])
        a, b = B.choice('a', [None, 0, -5, 9.5]), B.choice('b', [None, 0, -8, 3, 9.5])
        r = PointLineRelease(release_time=t0, start_position=(0, 0, 0), num_elements=3, end_release_time=None if dur is None else t0 + TD(seconds=dur))
        r.timezone_offset = TZOffset(offset=a, title='a') if a is not None else None
        B.prove('naming-the-zone-moves-nothing', r.release_time == t0 and r.release_duration == (dur or 0))
        r.timezone_offset = TZOffset(offset=b, title='b') if b is not None else None
        off = (b - a) * 3600 if a is not None and b is not None else 0
        B.prove('begin-shifted', r.release_time == t0 + TD(seconds=off), r.release_time)
        B.prove('duration-kept', r.release_duration == (dur or 0), r.release_duration)
        return
    if kind == 'splot':
        rows = [(B.int('x', lo=-170, hi=170), B.int('y', lo=-80, hi=80), B.int('k', lo=0, hi=4)) for _ in range(B.int('rows', lo=2, hi=5))]
        rows[0] = rows[0][:2] + (2,)
        f = tempfile.NamedTemporaryFile('w', suffix='.txt', delete=False)
        for x, y, k in rows:
            f.write('%d %d %.1f\n' % (x, y, k + .4))
        f.close()
        try:
            r = release_from_splot_data(t0, f.name)
        finally:
            os.remove(f.name)
        want = sorted((float(x), float(y), 0.) for x, y, k in rows for _ in range(k))
    else:
        w_, h_ = B.real('w', lo=.5, hi=5), B.real('h', lo=.5, hi=5)
        y = B.real('y', lo=-60, hi=60)
        m = B.int('m', lo=4, hi=12)
        r = GridRelease(t0, ((3., y), (3. + w_, y + h_)), m)
        nx, ny = r.resolution
        dx, dy = w_ * np.cos(np.radians(y + h_ / 2)) / nx, h_ / ny
        B.prove('grid-about-square', max(nx, ny) < 4 or min(nx, ny) < 2 or .5 <= dx / dy <= 2., (nx, ny, dx, dy))
        B.prove('grid-about-as-fine', abs(nx * ny - m * m) <= max(nx, ny), (nx, ny, m))
        B.prove('grid-centroid', np.allclose(r.centroid, (3. + w_ / 2, y + h_ / 2, 0)))
        r.retain_initial_positions = B.bool('keep')
        want = None
    n = r.num_elements
    if want is not None:
        B.prove('splot-count', n == len(want), (n, len(want)))
    r.prepare_for_model_run(900)
    sc = {k: np.full((n,) + sh, 7.) for k, sh in dict(positions=(3,), init_positions=(3,), mass=(), init_mass=()).items()}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r.initialize_elements(n, sc, t0, t0)
    if want is not None:
        B.prove('splot-positions', sorted(map(tuple, sc['positions'])) == want)
    elif r.retain_initial_positions:
        B.prove('grid-initial-positions', np.array_equal(sc['positions'], sc['init_positions']))


PL = 'PointLineRelease.'
HARNESSES = [
    H('steps', steps, functions=['Release.get_num_release_time_steps', 'Release.prepare_for_model_run', 'Release.element_timestep_ratio'], covers=['enough', 'refused']),
    H('schedule', schedule, functions=['Release.generate_release_timeseries', 'Release.num_elements_after_time', 'TimeseriesData.at'], conc=400),
    H('positions', positions, functions=[PL + 'generate_release_timeseries', PL + 'initialize_elements', 'TimeseriesVector.at']),
    H('custom', custom, sym=False, conc=150, functions=['Release.initialize_elements', 'PolygonRelease.initialize_elements', 'GridRelease.initialize_elements']),
    H('poly_share', poly_share, sym=False, conc=40, functions=['PolygonRelease.prepare_for_model_run', 'PolygonRelease.compute_distribution', 'PolygonRelease.get_polys_as_tris']),
    H('parts', parts, sym=False, conc=40, functions=['triangulate_poly', 'poly_area_weight', 'random_pt_in_tri']),
    H('helpers', helpers, sym=False, conc=200, functions=['point_line_spill', 'surface_point_line_spill', 'grid_spill', 'subsurface_spill', 'Substance.windage_range']),
    H('zones', zones, sym=False, conc=150, functions=['Release.timezone_offset', 'release_from_splot_data', 'GridRelease._compute_resolution']),
    H('whole_run', whole_run, sym=False, conc=80, conc_budget=40, functions=['Model.release_elements', 'SpillContainer.release_elements', 'Spill.release_elements']),
]
ASSUMPTIONS = ['whole-second times and steps', "gridded.time.Time is replaced by a stand-in with the interface's documented meaning"]
