"""C07 land: moves never pass through land; land/water queries agree with the raster"""
import datetime
from .common import *
from . import land as L
from gnome.basic_types import oil_status
import z3
from pyvc import pyx
from pyvc.terms import Sym, SymBool, term, PathEnd

IN, LAND, OFF = oil_status.in_water, oil_status.on_land, oil_status.off_maps


def grid(B, hi=40):
    W, H_ = B.int('W', lo=1, hi=hi), B.int('Hh', lo=1, hi=hi)
    G = np.zeros((W, H_), np.uint8)
    style = B.choice('style', ['dots', 'blobs', 'diag', 'checker', 'none', 'wall'])
    if style == 'dots':
        for _ in range(B.int('dots', lo=1, hi=12)):
            G[B.int('x', lo=0, hi=W - 1), B.int('y', lo=0, hi=H_ - 1)] = 1
    elif style == 'blobs':
        for _ in range(B.int('blobs', lo=1, hi=5)):
            x, y = B.int('x', lo=0, hi=W - 1), B.int('y', lo=0, hi=H_ - 1)
            G[x:x + B.int('a', lo=1, hi=12), y:y + B.int('b', lo=1, hi=12)] = 1
    elif style == 'diag':
        o, s = B.int('o', lo=-20, hi=60), B.choice('s', [1, -1])
        for x in range(W):
            if 0 <= o + s * x < H_:
                G[x, o + s * x] = 1
    elif style == 'checker':
        G[::2, ::2] = 1
        G[1::2, 1::2] = 1
        if B.bool('hole'):
            G[W // 3:, H_ // 3:] = 0
    elif style == 'wall':
        if B.bool('vert'):
            G[B.int('x', lo=0, hi=W - 1), :] = 1
        else:
            G[:, B.int('y', lo=0, hi=H_ - 1)] = 1
    return G


def pt(B, G, name, out=8):
    W, H_ = G.shape
    far = B.choice(name + '_far', [0, 0, 0, 1])
    k = 100 if far else out
    return (B.int(name + 'x', lo=-k, hi=W + k), B.int(name + 'y', lo=-k, hi=H_ + k))


def first_pixel(B):
    """bounded: the compiled line walk against the independent description of the line"""
    from gnome.cy_gnome.cy_land_check import find_first_pixel, overlap_grid
    G = grid(B)
    for _ in range(20):
        a, b = pt(B, G, 'a'), pt(B, G, 'b')
        r = find_first_pixel(G, a, b)
        if r is None:
            B.prove('no-land-passed-over', not L.must_hit(G, a, b), [G.tolist() if G.size < 80 else G.shape, a, b])
        else:
            B.prove('only-real-hits', L.may_hit(G, a, b), [a, b, r])
            e = L.hit_ok(G, a, b, r[0], r[1])
            B.prove('hit-is-the-first-land', not e, [e, a, b, r])
        if not overlap_grid(G.shape[0], G.shape[1], a, b):
            B.prove('moves-outside-the-raster-hit-nothing', r is None and not L.may_hit(G, a, b))


class Box:
    """a C variable passed by address"""
    def __init__(self, v=None):
        self.v = v

    def __getitem__(self, i):
        return self.v

    def __setitem__(self, i, v):
        self.v = v


class Raster:
    """the land raster as memory: any contents, reads inside only"""
    def __init__(self, B, m, n):
        self.B, self.m, self.n, self.F = B, m, n, z3.Function('land', z3.IntSort(), z3.IntSort())
        self.reads = []

    def cell(self, x, y):
        return Sym(self.F(term(x * self.n + y)))

    def on(self, x, y):
        return And(x >= 0, x < self.m, y >= 0, y < self.n)

    def is_land(self, x, y):
        return And(self.on(x, y), self.cell(x, y) != 0)

    def __getitem__(self, k):
        B, m, n = self.B, self.m, self.n
        # x * n + y with 0 <= x < m, 0 <= y < n, for the x, y the code computes: shown through the row
        B.prove('reads-inside-the-raster', And(k >= 0, k < m * n))
        return Sym(self.F(term(k)))


PYX = 'gnome/cy_gnome/cy_land_check.pyx'


def walk(B, part):
    """c_find_first_pixel, rasters and moves of any size: the walk follows the straight line (never more than half a pixel off
    it, one pixel per step), every pixel it passes is water, no step squeezes between two land pixels that touch diagonally;
    the hit it reports is land, next to the last water pixel; when it stops early everything ahead is off the raster"""
    m, n = B.int('m', lo=1), B.int('n', lo=1)
    X0, Y0, X1, Y1 = [B.int(k) for k in ('X0', 'Y0', 'X1', 'Y1')]
    R = Raster(B, m, n)
    if part != 'enter':
        # any way to the loop will do: at its head everything is made unknown again, only the invariant is kept
        B.assume(And(R.on(X0, Y0), Not(R.is_land(X0, Y0)), X0 < X1, Y0 < Y1))
    px, py, hx, hy = Box(), Box(), Box(), Box()
    mod = pyx.Module(PYX, ['c_overlap_grid', 'c_find_first_pixel'])
    K = B.int('K', lo=0)                 # an arbitrary step of the walk
    g = dict(X0=X0, Y0=Y0)

    def ij(loc):
        return loc['sx'] * (loc['x0'] - g['X0']), loc['sy'] * (loc['y0'] - g['Y0'])

    def inv(loc):
        x, y, dx, dy = loc['x0'], loc['y0'], loc['dx'], loc['dy']
        i, j = ij(loc)
        D = dx * j - dy * i
        wide = bool(dx >= dy)
        big = dx if wide else dy
        k = i if wide else j
        out = [('the-move', And(dx >= 0, dy >= 0, Or(loc['sx'] == 1, loc['sx'] == -1), Or(loc['sy'] == 1, loc['sy'] == -1), loc['x1'] == g['X0'] + loc['sx'] * dx, loc['y1'] == g['Y0'] + loc['sy'] * dy)),
               ('inside-the-move', And(i >= 0, i <= dx, j >= 0, j <= dy)),
               ('error-term', loc['err'] == D + dx - dy),
               ('near-the-line', And(2 * D <= big, 2 * D >= -big)),
               ('diagonal-exactly', Implies(dx == dy, D == 0)),
               ('on-the-raster', loc['was_on_grid'] == R.on(x, y) if isinstance(loc['was_on_grid'], SymBool) else (R.on(x, y) if loc['was_on_grid'] else Not(R.on(x, y)))),
               ('stands-on-water', Not(R.is_land(x, y)))]
        if 'VI' in g:
            VI, VJ = g['VI'], g['VJ']
            VD = dx * VJ - dy * VI
            vx, vy = g['X0'] + loc['sx'] * VI, g['Y0'] + loc['sy'] * VJ
            out += [('passed-on-the-line', Implies(K < k, And((VI if wide else VJ) == K, 2 * VD <= big, 2 * VD >= -big))),
                    ('passed-over-water', Implies(K < k, Not(R.is_land(vx, vy)))),
                    ('no-squeezing-through', Implies(K < k, Not(g['SK'])))]
        return out

    def havoc(loc):
        if part == 'enter':
            raise PathEnd()
        new = dict(x0=B.int('x'), y0=B.int('y'), err=B.int('err'), was_on_grid=B.bool('was'), x1=B.int('x1'), y1=B.int('y1'), dx=B.int('dx', lo=0), dy=B.int('dy', lo=0), sx=part[0], sy=part[1])
        g.update(X0=B.int('hX0'), Y0=B.int('hY0'), X1=new['x1'], Y1=new['y1'])
        left = set(loc) - set(new) - {'grid', 'm', 'n', 'prev_x', 'prev_y', 'hit_x', 'hit_y', '_turn'}
        if left:
            new.update({k: None for k in left})
        px.v, py.v = B.int('px'), B.int('py')
        g.update(VI=B.int('VI', lo=0), VJ=B.int('VJ', lo=0), SK=B.bool('SK'))
        g['head'] = (new['x0'], new['y0'])
        return new

    def squeezed(loc, ox, oy, x, y):
        return And(x != ox, y != oy, R.on(ox, oy), R.on(x, y), R.is_land(x, oy), R.is_land(ox, y))

    def after(loc):
        ox, oy = g['head']
        x, y = loc['x0'], loc['y0']
        oi, oj = loc['sx'] * (ox - g['X0']), loc['sy'] * (oy - g['Y0'])
        wide = bool(loc['dx'] >= loc['dy'])
        here = K == (oi if wide else oj)
        B.prove('one-pixel-further', And((x - ox) * loc['sx'] >= 0, (x - ox) * loc['sx'] <= 1, (y - oy) * loc['sy'] >= 0, (y - oy) * loc['sy'] <= 1, Or(x != ox, y != oy)))
        g['VI'], g['VJ'], g['SK'] = Ite(here, oi, g['VI']), Ite(here, oj, g['VJ']), Or(And(here, squeezed(loc, ox, oy, x, y)), And(Not(here), g['SK']))

    def left(loc):
        i, j = ij(loc)
        return loc['dx'] + loc['dy'] - i - j
    mod.loops['c_find_first_pixel/while0'] = pyx.WhileContract('walk', inv, havoc, after, variant=left)
    seen = {}

    def ret(loc, v):
        seen.update(loc)
        seen['value'] = v
    mod.on_return['c_find_first_pixel'] = ret
    hit = mod['c_find_first_pixel'](R, m, n, X0, Y0, X1, Y1, px, py, hx, hy)
    if part != 'enter':
        X0, Y0, X1, Y1 = g['X0'], g['Y0'], g['X1'], g['Y1']
    between = lambda p, a, b: And(Or(And(a <= p, p <= b), And(b <= p, p <= a)))
    if bool(hit):
        if hx.v is None or hy.v is None or px.v is None or py.v is None:
            B.prove('a-hit-is-reported-with-its-pixels', False)
            return
        B.prove('hit-is-land', R.is_land(hx.v, hy.v))
        B.prove('hit-lies-between-the-ends', And(between(hx.v, X0, X1), between(hy.v, Y0, Y1)))
        if 'head' not in g:
            B.prove('land-at-the-start', And(hx.v == X0, hy.v == Y0, px.v == X0, py.v == Y0))
            return
        ox, oy = g['head']
        B.prove('last-water-is-the-pixel-before', And(px.v == ox, py.v == oy))
        B.prove('last-water-is-water', Not(R.is_land(px.v, py.v)))
        B.prove('hit-is-next-to-it', And(hx.v - px.v <= 1, hx.v - px.v >= -1, hy.v - py.v <= 1, hy.v - py.v >= -1, Or(hx.v != px.v, hy.v != py.v)))
        x, y = seen['x0'], seen['y0']
        B.prove('hit-is-the-next-pixel-or-closes-the-diagonal', Or(And(hx.v == x, hy.v == y), squeezed(seen, ox, oy, x, y)))
        return
    if 'x0' not in seen or 'dx' not in seen:
        # no part of the move can be on the raster
        qx, qy = B.int('qx'), B.int('qy')
        B.prove('nothing-of-the-move-is-on-the-raster', Implies(And(between(qx, X0, X1), between(qy, Y0, Y1)), Not(R.on(qx, qy))))
        return
    x, y, sx, sy = seen['x0'], seen['y0'], seen['sx'], seen['sy']
    B.prove('ends-on-water', Not(R.is_land(x, y)))
    qx, qy = B.int('qx'), B.int('qy')
    ahead = And((qx - x) * sx >= 0, (qy - y) * sy >= 0)
    B.prove('stops-at-the-end-or-where-everything-ahead-is-off-the-raster', Or(And(x == X1, y == Y1), Implies(ahead, Not(R.on(qx, qy)))))


def walk_enter(B):
    """up to the loop of c_find_first_pixel: its invariant holds at the start, and the answers given without walking are right"""
    return walk(B, 'enter') if B.symbolic else first_pixel(B)


def walk_dir(sx, sy):
    def f(B):
        return walk(B, (sx, sy)) if B.symbolic else first_pixel(B)
    f.__doc__ = 'the walk of c_find_first_pixel towards (%+d, %+d), from its loop invariant' % (sx, sy)
    return f


def land_box(B):
    """c_land_in_box, rasters of any size: False exactly when no cell of the raster in the box of the two ends is land"""
    if not B.symbolic:
        return first_pixel(B)
    m, n = B.int('m', lo=1), B.int('n', lo=1)
    X0, Y0, X1, Y1 = [B.int(k) for k in ('X0', 'Y0', 'X1', 'Y1')]
    R = Raster(B, m, n)
    mod = pyx.Module(PYX, ['c_land_in_box'])
    Q, P = B.int('Q'), B.int('P')
    inside = And(Or(And(X0 <= Q, Q <= X1), And(X1 <= Q, Q <= X0)), Or(And(Y0 <= P, P <= Y1), And(Y1 <= P, P <= Y0)), R.on(Q, P))
    dry = R.cell(Q, P) == 0
    outer = pyx.RangeContract('columns', lambda loc, k: [('no-land-in-the-columns-before', Implies(And(inside, Q < k), dry))])
    inner = pyx.RangeContract('cells', lambda loc, k: [('no-land-in-the-columns-before', Implies(And(inside, Q < loc['x']), dry)), ('no-land-in-the-cells-before', Implies(And(inside, Q == loc['x'], P < k), dry))])
    mod.loops['c_land_in_box/for'] = lambda loc: inner if 'x' in loc else outer
    seen = {}
    mod.on_return['c_land_in_box'] = lambda loc, v: seen.update(loc)
    r = mod['c_land_in_box'](R, m, n, X0, Y0, X1, Y1)
    if bool(r):
        x, y = seen['x'], seen['y']
        B.prove('true-shows-a-land-cell-of-the-box', And(R.is_land(x, y), Or(And(X0 <= x, x <= X1), And(X1 <= x, x <= X0)), Or(And(Y0 <= y, y <= Y1), And(Y1 <= y, y <= Y0))))
    else:
        B.prove('false-means-no-land-in-the-box', Implies(inside, dry))


def extraction(B):
    """bounded: the Python text extracted from the .pyx, run as it is, gives what the compiled function gives"""
    from gnome.cy_gnome.cy_land_check import find_first_pixel
    mod = pyx.Module(PYX, ['c_overlap_grid', 'c_find_first_pixel'])
    G = grid(B)
    flat = G.reshape(-1).astype(int).tolist()
    for _ in range(20):
        a, b = pt(B, G, 'a'), pt(B, G, 'b')
        r = find_first_pixel(G, a, b)
        px, py, hx, hy = Box(), Box(), Box(), Box()
        hit = mod['c_find_first_pixel'](flat, G.shape[0], G.shape[1], a[0], a[1], b[0], b[1], px, py, hx, hy)
        want = ((px.v, py.v), (hx.v, hy.v)) if hit else None
        if r != want:
            raise pyx.Unsupported('extracted text and compiled code differ: %r %r' % (r, want))


class SC(dict):
    pass


def fmap(B, G, bounds=None, half=1.):
    from gnome.maps import RasterMap
    from gnome.utilities.projections import GeoProjection, FlatEarthProjection, NoProjection
    W, H_ = G.shape
    P = B.choice('proj', ['none', 'geo', 'flat'])
    cx, cy = B.choice('cx', [-70., 0., 179.]), B.choice('cy', [0., 28., -60.])
    s = B.choice('scale', [.001, .05])
    box = ((cx - W * s / 2, cy - H_ * s / 2), (cx + W * s / 2, cy + H_ * s / 2))
    proj = NoProjection() if P == 'none' else (GeoProjection if P == 'geo' else FlatEarthProjection)(box, (W, H_))
    m = RasterMap(raster=G, projection=proj, refloat_halflife=half, map_bounds=bounds)
    rt = B.choice('ratios', [None, (16, 1), (4, 1), (8, 2, 1), (5, 1), (3, 2, 1), (1,)])
    if rt:
        m.ratios = np.array(rt, dtype=np.int32)
    return m, proj


def lonlat(proj, p):
    return proj.to_lonlat(np.array([p], dtype=np.float64))[0] if hasattr(proj, 'center') and proj.__class__.__name__ != 'NoProjection' else np.array(p, float) + .5


def beach(B):
    """bounded: beaching on random rasters, every layering: the same as the full-resolution raster, nothing else touched"""
    G = grid(B)
    m, proj = fmap(B, G)
    n = B.int('n', lo=1, hi=12)
    px = lambda a: proj.to_pixel(np.asarray(a), asint=True)
    pos, nxt, st, lw = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros(n, np.int16), np.zeros((n, 3))
    for i in range(n):
        for arr, nm in ((pos, 'a'), (nxt, 'b'), (lw, 'c')):
            p = pt(B, G, nm)
            arr[i, :2] = lonlat(proj, (p[0] + B.real('fx', lo=-.4, hi=.4), p[1] + B.real('fy', lo=-.4, hi=.4)))
            arr[i, 2] = B.choice('z', [0., 2., -1.])
        st[i] = B.choice('st', [IN, IN, IN, LAND])
    mass = np.arange(1., n + 1)
    sc = SC(positions=pos.copy(), next_positions=nxt.copy(), status_codes=st.copy(), last_water_positions=lw.copy(), mass=mass)
    sc.mass_balance = dict(beached=0., off_maps=0.)
    inside = m.on_map(nxt)
    m.beach_elements(sc)
    pa, pb = px(pos), px(nxt)
    for i in range(n):
        d = [G.tolist() if G.size < 60 else G.shape, pa[i].tolist(), pb[i].tolist(), list(m.ratios)]
        if st[i] == LAND:
            continue
        if L.must_hit(G, pa[i], pb[i]):
            B.prove('land-on-the-way-beaches', sc['status_codes'][i] in (LAND, OFF), d)
        if not L.may_hit(G, pa[i], pb[i]):
            B.prove('no-land-no-beaching', sc['status_codes'][i] in (IN, OFF), d)
            B.prove('free-move-is-kept', np.array_equal(sc['next_positions'][i, :2], nxt[i, :2]) and np.array_equal(sc['last_water_positions'][i], lw[i]), d)
        if sc['status_codes'][i] == LAND:
            h, w = px(sc['next_positions'])[i], px(sc['last_water_positions'])[i]
            e = L.hit_ok(G, pa[i], pb[i], w, h)
            B.prove('beached-at-the-first-land', not e, [e] + d + [w.tolist(), h.tolist()])
            B.prove('map-says-land', bool(m.on_land(sc['next_positions'][i])) and bool(m.on_land_points(sc['next_positions'][i:i + 1])[0]), d)
        B.prove('not-above-the-surface', sc['next_positions'][i, 2] == max(nxt[i, 2], 0.), d)


class Each:
    """row memory of which one turn may touch only its own element"""
    def __init__(self, B, I, vals):
        self.B, self.I, self.v, self.old, self.shape = B, I, dict(vals), dict(vals), None

    def key(self, k):
        i, c = k if isinstance(k, tuple) else (k, None)
        self.B.prove('touches-its-own-element', i == self.I)
        return c

    def __getitem__(self, k):
        return self.v[self.key(k)]

    def __setitem__(self, k, v):
        self.v[self.key(k)] = v


class Store:
    """allocated memory: written at one arbitrary index, later read as the function that index stands for"""
    def __init__(self):
        self.d, self.fn = [], None

    def __getitem__(self, k):
        if self.fn is not None:
            return self.fn(k)
        for i, v in reversed(self.d):
            if i is k or (not isinstance(i, Sym) and not isinstance(k, Sym) and i == k):
                return v
        raise pyx.Unsupported('memory read that was not written')

    def __setitem__(self, k, v):
        self.d.append((k, v))


class Layer:
    def __init__(self, l, W, H):
        self.l, self.shape = l, (W(l), H(l))


def layers(B):
    """check_land_layers, any number of layers, ratios and elements: every element ends as the walk on the finest raster alone
    leaves it (callees by their contracts: walk and box proved above; a coarse cell is set if any of its fine cells is land)"""
    if not B.symbolic:
        return beach(B)
    zi = z3.IntSort()
    fW, fH, fr_, fC = z3.Function('W', zi, zi), z3.Function('H', zi, zi), z3.Function('r', zi, zi), z3.Function('coarse', zi, zi, zi, zi)
    m, n, NL, N = B.int('m', lo=1), B.int('n', lo=1), B.int('layers', lo=1), B.int('N', lo=1)
    ONLAND = LAND

    def facts(l):
        fine = l == NL - 1
        W, H, r = Sym(fW(term(l))), Sym(fH(term(l))), Sym(fr_(term(l)))
        B.assume(r >= 1)
        B.assume(Implies(fine, And(r == 1, W == m, H == n)))
        B.assume(And(W >= 1, H >= 1, W * r >= m, H * r >= n))
        return W, H, r
    W, H_, rr = (lambda l: facts(l)[0]), (lambda l: facts(l)[1]), (lambda l: facts(l)[2])
    p0, p1, e0, e1, l0, l1 = [B.int(k) for k in ('p0', 'p1', 'e0', 'e1', 'l0', 'l1')]
    st = B.int('st', lo=-2, hi=12)
    I = B.int('I', lo=0)
    pos, end, last, stat = Each(B, I, {0: p0, 1: p1}), Each(B, I, {0: e0, 1: e1}), Each(B, I, {0: l0, 1: l1}), Each(B, I, {None: st})
    pos.shape = (N, 2)
    # what the walk on the finest raster says about this move (its contract, proved above)
    FH, fx, fy, gx, gy = B.bool('hits'), B.int('hx'), B.int('hy'), B.int('gx'), B.int('gy')
    btw = lambda p, a, b: Or(And(a <= p, p <= b), And(b <= p, p <= a))
    B.assume(Implies(FH, And(btw(fx, p0, e0), btw(fy, p1, e1), fx >= 0, fx < m, fy >= 0, fy < n)))

    class Ratios:
        shape = (NL,)

        def __getitem__(self, l):
            B.prove('layer-in-range', And(l >= 0, l < NL))
            return rr(l)

    class Layers:
        def __getitem__(self, l):
            B.prove('layer-in-range', And(l >= 0, l < NL))
            return Layer(l, W, H_)

    def in_box(L_, w, h, x0, y0, x1, y1):
        B.prove('box-of-that-layer', And(w == L_.shape[0], h == L_.shape[1]))
        r = rr(L_.l)
        b = B.bool('land_in_box')
        # a coarse cell is set if one of its fine cells is land; the box says False only if none of its cells is set
        qx, qy = fx // r, fy // r
        B.assume(Implies(And(FH, Not(b), btw(qx, x0, x1), btw(qy, y0, y1), qx >= 0, qx < w, qy >= 0, qy < h), False))
        return b

    def first(L_, w, h, x0, y0, x1, y1, ax, ay, bx, by):
        B.prove('the-walk-is-on-the-finest-raster', L_.l == NL - 1)
        B.prove('the-whole-move-is-walked', And(w == m, h == n, x0 == p0, y0 == p1, x1 == e0, y1 == e1))
        if bool(FH):
            ax[0], ay[0], bx[0], by[0] = gx, gy, fx, fy
            return True
        return False

    class TD:
        OILSTAT_ONLAND = ONLAND
    mod = pyx.Module(PYX, ['check_land_layers'], extra=dict(type_defs=TD, PyMem_Malloc=lambda k: Store(), c_land_in_box=in_box, c_find_first_pixel=first))
    J = B.int('J', lo=0)

    def filled(loc):
        w, h, d = loc['widths'].d, loc['heights'].d, loc['dataptrs'].d
        ok = len(w) == 1 and len(h) == 1 and len(d) == 1 and isinstance(d[0][1], Layer)
        B.prove('tables-filled', ok)
        if not ok:
            raise PathEnd()
        B.prove('tables-hold-the-layers', And(w[0][0] == J, h[0][0] == J, d[0][0] == J, d[0][1].l == J, w[0][1] == W(J), h[0][1] == H_(J)))
        loc['widths'].fn, loc['heights'].fn, loc['dataptrs'].fn = W, H_, lambda l: Layer(l, W, H_)
    fill = pyx.EachContract('tables', lambda loc: J, done=filled)
    each = pyx.EachContract('elements', lambda loc: I)
    mod.loops['check_land_layers/for'] = lambda loc: each if 'num_le' in loc else fill

    def untouched():
        return [('element-not-touched-yet', And(pos.v[0] == p0, pos.v[1] == p1, end.v[0] == e0, end.v[1] == e1, last.v[0] == l0, last.v[1] == l1, stat.v[None] == st))]

    def havoc(loc):
        for k in ('coarse_pos', 'coarse_end'):
            loc[k].d.clear()
        return dict(layer=B.int('layer', lo=0))
    mod.loops['check_land_layers/while0'] = pyx.WhileContract('layers', lambda loc: [('layer-in-range', And(loc['layer'] >= 0, loc['layer'] < NL))] + untouched(), havoc, variant=lambda loc: NL - loc['layer'])
    B.assume(I < N)
    mod['check_land_layers'](Layers(), Ratios(), pos, end, stat, last)
    same = And(pos.v[0] == p0, pos.v[1] == p1, end.v[0] == e0, end.v[1] == e1, last.v[0] == l0, last.v[1] == l1, stat.v[None] == st)
    landed = st == ONLAND
    B.prove('stranded-elements-are-left-alone', Implies(landed, same))
    B.prove('a-hit-strands-where-the-walk-says', Implies(And(Not(landed), FH), And(stat.v[None] == ONLAND, end.v[0] == fx, end.v[1] == fy, last.v[0] == gx, last.v[1] == gy)))
    B.prove('without-a-hit-the-move-is-kept', Implies(And(Not(landed), Not(FH)), And(stat.v[None] == st, end.v[0] == e0, end.v[1] == e1, last.v[0] == l0, last.v[1] == l1, pos.v[0] == e0, pos.v[1] == e1)))


class SymRaster:
    """a raster of any size: cell values as a function of the pixel; reading outside it is an obligation"""
    def __init__(self, B, W, H_):
        self.B, self.shape = B, (W, H_)
        self.f = z3.Function('cell', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def inside(self, x, y):
        return And(x >= 0, y >= 0, x < self.shape[0], y < self.shape[1])

    def land(self, x, y):
        return And(self.inside(x, y), Sym(self.f(term(x), term(y))) == 1)

    def __getitem__(self, key):
        from pyvc.arrays import SymArray, elementwise
        x, y = key
        if isinstance(x, SymArray):
            self.B.forall('reads-inside-the-raster', (x.dims[0],), lambda i: self.inside(Sym(x.at((i.t,))), Sym(y.at((i.t,)))))
            return elementwise(lambda a, b: self.f(a, b), x, y, dtype=np.dtype('uint8'))
        self.B.prove('reads-inside-the-raster', self.inside(x, y))
        v = self.f(term(x), term(y))
        self.B.assume(Or(Sym(v) == 0, Sym(v) == 1))
        return Sym(v)


def pixel_queries(B):
    """the pixel queries, one by one and in arrays of any length, on a raster of any size: land inside the raster and nowhere else, never reading outside it"""
    from gnome.maps import RasterMap
    from gnome.utilities.projections import FlatEarthProjection
    N = B.dim('N', 1)
    W, H_ = B.int('W', lo=1, hi=50), B.int('Hh', lo=1, hi=50)
    m = RasterMap(raster=np.zeros((4, 3), np.uint8), projection=FlatEarthProjection(((-10, -12), (12, 14)), (20, 30)))
    px = B.array('px', (N, 2), dtype=np.int32, lo=-60, hi=110)
    p0 = px.copy()
    if B.symbolic:
        R = SymRaster(B, W, H_)
        land = lambda i: R.land(B.at(p0, i, 0), B.at(p0, i, 1))
    else:
        R = B.array('cells', (W, H_), dtype=np.uint8, choices=[0, 1])
        land = lambda i: L.is_land(R, p0[i])
    poke(m, _raster=R)
    ln = B.array('lonlat', (N, 3), lo=-20, hi=20)
    asked = []

    def to_pixel(c, asint=False):
        # contract of the projection: one pixel per point, whole when asked
        asked.append((c, asint))
        return px if c is ln else px[c.k:c.k + 1]
    B.patch(m.projection, 'to_pixel', to_pixel)
    got = m.on_land_points(ln)
    B.forall('on-land-points', (N,), lambda i: (bool(B.at(got, i)) if not B.symbolic else B.at(got, i)) == land(i))
    B.forall('pixels-kept', (N, 2), lambda i, j: B.at(px, i, j) == B.at(p0, i, j))
    B.prove('whole-pixels-asked', all(a for _, a in asked))

    x, y = B.int('x', lo=-60, hi=110), B.int('y', lo=-60, hi=110)
    one = (x, y)
    is_land = R.land(x, y) if B.symbolic else L.is_land(R, one)
    B.patch(m.projection, 'to_pixel', lambda c, asint=False: [one])
    on_map = B.bool('onmap')
    B.patch(m, 'on_map', lambda c: on_map)
    lo = m.on_land((0., 0., 0.))
    B.prove('on-land', is_land if lo else Not(is_land))
    iw = m.in_water((0., 0., 0.))
    B.prove('in-water', And(on_map, Not(is_land)) if iw else Or(Not(on_map), is_land))
    sp = B.bool('spillable')
    from gnome.maps import GnomeMap
    B.patch(GnomeMap, 'allowable_spill_position', lambda self, c: sp)
    al = m.allowable_spill_position((0., 0., 0.))
    B.prove('spillable', And(on_map, Not(is_land), sp) if al else Not(And(on_map, Not(is_land), sp)))


def queries(B):
    """bounded: on_land, on_land_points, in_water and the allowed spill positions say what the raster and the bounds say"""
    from gnome.utilities.geometry.cy_point_in_polygon import points_in_poly
    G = grid(B)
    W, H_ = G.shape
    k = B.choice('out', [-.2, .0, .3, 1.])
    m, proj = fmap(B, G)
    c = [lonlat(proj, p) for p in ((-k * W, -k * H_), (-k * W, H_ + k * H_), (W + k * W, H_ + k * H_), (W + k * W, -k * H_))]
    m.map_bounds = np.array(c)
    n = B.choice('np', [1, 8, 8, 8, 70])
    pts = np.zeros((n, 3))
    for i in range(n):
        p = pt(B, G, 'p', 20)
        pts[i, :2] = lonlat(proj, (p[0] + B.real('fx', lo=-.4, hi=.4), p[1] + B.real('fy', lo=-.4, hi=.4)))
    pix = proj.to_pixel(pts, asint=True)
    land = np.array([L.is_land(G, p) for p in pix])
    inside = points_in_poly(np.array(c), pts)
    B.prove('on-land-points', np.array_equal(m.on_land_points(pts), land), [pix, land])
    B.prove('on-map', np.array_equal(m.on_map(pts), inside))
    sas = []
    for _ in range(B.choice('areas', [0, 1, 1, 2, 3])):
        k = B.int('corners', lo=3, hi=7)
        mid = [B.real('mid', lo=-.2, hi=1.2) * s for s in (W, H_)]
        r = B.real('rad', lo=.05, hi=.8)
        t0 = B.real('t0', lo=0, hi=6)
        sas.append(np.array([lonlat(proj, (mid[0] + r * W * np.cos(t0 + 6.2831853 * j / k), mid[1] + r * H_ * np.sin(t0 + 6.2831853 * j / k))) for j in range(k)]))
    area = bool(sas)
    if area:
        m.spillable_area = [np.array(q) for q in sas]
    for i in range(n):
        B.prove('on-land', bool(m.on_land(pts[i])) == bool(land[i]), [pix[i], land[i]])
        B.prove('in-water', bool(m.in_water(pts[i])) == bool(inside[i] and not land[i]), [pix[i], land[i], inside[i]])
        ok = inside[i] and not land[i] and (not area or any(points_in_poly(q, pts[i:i + 1])[0] for q in sas))
        B.prove('spillable', bool(m.allowable_spill_position(pts[i])) == bool(ok), [pix[i], land[i], inside[i]])


def whole_run(B):
    """bounded: along whole runs with every kind of mover no in-water element is ever on land, and no step passes through land"""
    from . import modelgen as M
    w = M.build(B, land=True, weather=False, backward=True)
    prev, ashore = {}, set()         # ashore: released on land, outside the statement
    for step in M.run(w):
        for c, o in enumerate(step):
            pix = w.proj.to_pixel(o['positions'], asint=True) if len(o) else []
            now = {}
            for i, s, p, z in zip(o['id'].tolist(), o['status_codes'], pix, o['positions'][:, 2]):
                land = L.is_land(w.raster, p)
                if (c, i) not in prev and land:
                    ashore.add((c, i))
                    B.prove('released-on-land-is-marked-so', s == LAND or w.map.refloat_halflife == 0, [i, p, s])
                now[(c, i)] = (p, s)
                if (c, i) in ashore:
                    continue
                B.prove('in-water-elements-are-not-on-land', s != IN or not land, [i, p, s])
                B.prove('beached-elements-are-on-land', s != LAND or land, [i, p, s])
                a = prev.get((c, i))
                if a is not None and s == IN and a[1] == IN:
                    B.prove('no-step-through-land', not L.must_hit(w.raster, a[0], p), [i, a[0], p])
                B.prove('not-above-the-surface', z >= 0)
            prev.update(now)


HARNESSES = [
    H('walk_enter', walk_enter, conc=60, conc_budget=10, functions=['c_find_first_pixel', 'c_overlap_grid']),
] + [H('walk_%s%s' % ('w' if sx < 0 else 'e', 's' if sy < 0 else 'n'), walk_dir(sx, sy), conc=60, conc_budget=10, functions=['c_find_first_pixel'], budget=400, max_paths=4000) for sx in (1, -1) for sy in (1, -1)] + [
    H('land_box', land_box, conc=60, conc_budget=10, functions=['c_land_in_box']),
    H('layers', layers, conc=60, conc_budget=10, functions=['cy_land_check.check_land_layers']),
    H('pixel_queries', pixel_queries, conc=100, functions=['RasterMap._on_land_pixel_array', 'RasterMap._off_raster_array', 'RasterMap._on_land_pixel', 'RasterMap._in_water_pixel', 'RasterMap.on_land_points', 'RasterMap.on_land', 'RasterMap.in_water', 'RasterMap.allowable_spill_position']),
    H('extraction', extraction, sym=False, conc=300, conc_budget=15, functions=['c_find_first_pixel']),
    H('first_pixel', first_pixel, sym=False, conc=4000, conc_budget=30, functions=['cy_land_check.find_first_pixel', 'c_find_first_pixel', 'c_overlap_grid']),
    H('beach', beach, sym=False, conc=4000, conc_budget=40, functions=['RasterMap.beach_elements', 'RasterMap.build_coarser_rasters', 'cy_land_check.check_land_layers', 'c_land_in_box']),
    H('queries', queries, sym=False, conc=2000, conc_budget=25, functions=['RasterMap.on_land', 'RasterMap.on_land_points', 'RasterMap.in_water', 'RasterMap.allowable_spill_position', 'GnomeMap.on_map']),
    H('whole_run', whole_run, sym=False, conc=300, conc_budget=50, functions=['Model.move_elements', 'RasterMap.beach_elements', 'RasterMap.refloat_elements']),
]
