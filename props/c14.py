"""C14 boxes, polygons and point-in-polygon"""
import copy
import math
from fractions import Fraction
from .common import *
from gnome.utilities.geometry import BBox as BB
from gnome.utilities.geometry.polygons import Polygon, PolygonSet
from gnome.utilities.geometry.cy_point_in_polygon import point_in_poly, points_in_poly, points_in_polys
from gnome.utilities.geometry.PinP import CrossingsTest, points_in_poly as py_points_in_poly
from gnome.utilities.geometry.poly_clockwise import is_clockwise, is_clockwise_convex
import os
from pyvc import cint, native
from pyvc.cint import Interp, Arr, truth
from pyvc.terms import Sym

GEO = os.path.join(native.REPO, 'py_gnome', 'gnome', 'utilities', 'geometry') + os.sep
GRID = [-180., -90., -1., 0., 0.5, 1., 2., 3., 90., 180.]


def box(B, name):
    """any box; symbolically an array that carries the methods of the real class"""
    x, y = B.real(name + 'x', lo=-400, hi=400, gen=lambda r: r.choice(GRID)), B.real(name + 'y', lo=-400, hi=400, gen=lambda r: r.choice(GRID))
    w = B.real(name + 'w', lo=0, hi=400, gen=lambda r: r.choice([0., 0.5, 1., 3., 90.]))
    h = B.real(name + 'h', lo=0, hi=400, gen=lambda r: r.choice([0., 0.5, 1., 3., 90.]))
    if not B.symbolic:
        b = BB.BBox(((x, y), (x + w, y + h)))
        return b, (x, y, x + w, y + h)
    from pyvc.arrays import SymArray, NP
    a = NP.array([[x, y], [x + w, y + h]])
    C = type('SymBBox', (SymArray,), {k: v for k, v in vars(BB.BBox).items() if k not in ('__new__', '__eq__', '__dict__', '__weakref__', '__module__', '__doc__', 'Array__eq__')})
    b = C.__new__(C)
    b.__dict__.update(a.__dict__)
    return b, (x, y, x + w, y + h)


def boxes(B):
    a, (ax, ay, aX, aY) = box(B, 'a')
    b, (bx, by, bX, bY) = box(B, 'b')
    px, py = B.real('px', lo=-800, hi=800, gen=lambda r: r.choice(GRID)), B.real('py', lo=-800, hi=800, gen=lambda r: r.choice(GRID))
    B.prove('overlaps-iff-a-common-point', eq(B, a.Overlaps(b), And(ax <= bX, bx <= aX, ay <= bY, by <= aY)))
    B.prove('inside-iff-contained', eq(B, a.Inside(b), And(ax <= bx, bX <= aX, ay <= by, bY <= aY)))
    B.prove('point-inside', eq(B, a.PointInside((px, py)), And(ax <= px, px <= aX, ay <= py, py <= aY)))
    B.prove('sides', And(a.Left == ax, a.Right == aX, a.Bottom == ay, a.Top == aY))
    B.prove('size', And(B.close(a.Width, aX - ax), B.close(a.Height, aY - ay)))
    c = a.Center
    B.prove('centre', And(B.close(c[0], (ax + aX) / 2), B.close(c[1], (ay + aY) / 2)))
    p = a.AsPoly()
    for k, (x, y) in enumerate([(ax, ay), (ax, aY), (aX, aY), (aX, ay)]):
        B.prove('corners', And(p[k, 0] == x, p[k, 1] == y))


def eq(B, a, b):
    import z3
    if not B.symbolic:
        return bool(a) == bool(b)
    f = lambda x: x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))
    return f(a) == f(b)


def lo(B, a, b):
    return Ite(a < b, a, b) if B.symbolic else min(a, b)


def hi(B, a, b):
    return Ite(a > b, a, b) if B.symbolic else max(a, b)


def merge(B):
    a, (ax, ay, aX, aY) = box(B, 'a')
    b, (bx, by, bX, bY) = box(B, 'b')
    a.Merge(b)
    B.prove('merged-is-the-smallest-box-around-both', And(a[0, 0] == lo(B, ax, bx), a[0, 1] == lo(B, ay, by), a[1, 0] == hi(B, aX, bX), a[1, 1] == hi(B, aY, bY)))
    B.prove('other-box-unchanged', And(b[0, 0] == bx, b[0, 1] == by, b[1, 0] == bX, b[1, 1] == bY))


def from_points(B):
    N = B.dim('N', 1)
    p = B.array('p', (N, 2), lo=-400, hi=400, gen=lambda r: r.choice(GRID))
    if B.symbolic:
        B.patch(BB.np, 'ndarray', Obj(__new__=lambda cls, shape, dtype, buffer: buffer))
    b = BB.fromPoints(p)
    B.forall('contains-every-point', (N,), lambda i: And(b[0, 0] <= B.at(p, i, 0), B.at(p, i, 0) <= b[1, 0], b[0, 1] <= B.at(p, i, 1), B.at(p, i, 1) <= b[1, 1]))
    if not B.symbolic:
        B.prove('smallest', bool((np.asarray(b) == np.array([p.min(0), p.max(0)])).all()))


def box_bounded(B):
    """bounded: construction from points and boxes, null and infinite boxes, refused boxes"""
    pts = np.array([[B.choice('x', GRID), B.choice('y', GRID)] for _ in range(B.int('n', lo=1, hi=6))])
    keep = pts.copy()
    b = BB.fromPoints(pts)
    xs, ys = [float(v) for v in pts[:, 0]], [float(v) for v in pts[:, 1]]
    want = [[min(xs), min(ys)], [max(xs), max(ys)]]
    B.prove('from-points', np.asarray(b).tolist() == want)
    B.prove('points-kept', (pts == keep).all())
    b[0, 0] -= 5.
    B.prove('box-does-not-share-the-points', (pts == keep).all())
    many = np.array([[[min(p, q) for p, q in zip(pts[i], pts[j])], [max(p, q) for p, q in zip(pts[i], pts[j])]] for i in range(len(pts)) for j in range(len(pts))])
    B.prove('from-boxes', np.asarray(BB.fromBBArray(many)).tolist() == want)
    nb = BB.NullBBox()
    B.prove('null', nb.IsNull())
    c = BB.asBBox(np.array(want))
    nb.Merge(c)
    B.prove('null-merged-with-a-box-is-that-box', np.asarray(nb).tolist() == want)
    c.Merge(BB.NullBBox())
    B.prove('box-merged-with-null-is-that-box', np.asarray(c).tolist() == want)
    B.prove('infinite-overlaps-everything', BB.InfBBox().Overlaps(c) and c.Overlaps(BB.InfBBox()))
    for k in range(4):
        h = np.array(((-np.inf, -np.inf), (np.inf, np.inf)))
        x, y = B.choice('cx', GRID), B.choice('cy', GRID)
        h[k // 2] = [(x, h[k // 2, 1]), (h[k // 2, 0], y)][k % 2]
        hb = BB.asBBox(h)
        far = h[1, 0] < want[0][0] or h[0, 0] > want[1][0] or h[1, 1] < want[0][1] or h[0, 1] > want[1][1]
        B.prove('half-infinite', bool(hb.Overlaps(c)) == (not far) and bool(c.Overlaps(hb)) == (not far), [h, want])
    B.prove('equal', (c == BB.asBBox(np.array(want))) and not (c == BB.asBBox(np.array(want) + 1)))
    x0, y0, x1, y1 = [B.choice('c', GRID) for _ in range(4)]
    try:
        BB.BBox(((x0, y0), (x1, y1)))
        B.prove('accepted-only-aligned', x0 <= x1 and y0 <= y1)
    except ValueError:
        B.prove('refused-only-misaligned', x0 > x1 or y0 > y1)


def shift_lon(B):
    """the two longitude frames: every vertex moves by whole turns into the frame, nothing else changes"""
    from gnome.maps.map import ShiftLon360, ShiftLon180
    N = B.dim('N', 1)
    p = B.array('p', (N, 2), lo=-180, hi=360, gen=lambda r: r.choice([-180., -10., -1e-9, 0., 10., 180., 180.5, 359., r.uniform(-180, 360)]))
    old = p.copy()
    which = B.choice('frame', [360, 180])
    B.assume_forall((N,), lambda i: B.at(p, i, 0) < 360)
    out = (ShiftLon360 if which == 360 else ShiftLon180)(p)
    low, high = (0, 360) if which == 360 else (-180, 180)

    def ok(i):
        a, b = B.at(old, i, 0), B.at(out, i, 0)
        return And(Or(B.close(b, a), B.close(b, a + 360), B.close(b, a - 360)), b >= low, b <= high, B.at(out, i, 1) == B.at(old, i, 1),
                   Implies(And(a >= low, a <= high), b == a))
    B.forall('same-meridian-inside-the-frame', (N,), ok)


# --- point in polygon -------------------------------------------------------------------------
def inside_oracle(poly, x, y):
    """even-odd by exact rational arithmetic -> True/False, None when on the boundary (or too near it for floating point)"""
    n = len(poly)
    P = [(Fraction(float(a)), Fraction(float(b))) for a, b in poly]
    x, y = Fraction(float(x)), Fraction(float(y))
    for k in range(n):
        (x1, y1), (x2, y2) = P[k], P[(k + 1) % n]
        e = Fraction(1, 10**9)
        if abs((x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)) <= e * 1000 and min(x1, x2) - e <= x <= max(x1, x2) + e and min(y1, y2) - e <= y <= max(y1, y2) + e:
            return None
    # angle-free: count crossings of the ray towards +x through a generic height
    c = 0
    for k in range(n):
        (x1, y1), (x2, y2) = P[k], P[(k + 1) % n]
        if y1 == y2:
            continue
        if y1 > y2:
            x1, y1, x2, y2 = x2, y2, x1, y1
        if y1 <= y < y2 and x1 + (x2 - x1) * (y - y1) / (y2 - y1) > x:
            c += 1
    return bool(c % 2)


def polygon(B, name='v', n=None, grid=None):
    n = n or B.int('nv', lo=3, hi=9)
    g = grid or B.choice('grid', [4, 20, 0])
    if g:
        return np.array([[float(B.int(name, lo=-g, hi=g)), float(B.int(name, lo=-g, hi=g))] for _ in range(n)])
    return np.array([[B.real(name, lo=-180, hi=180), B.real(name, lo=-90, hi=90)] for _ in range(n)])


def pip(B):
    """bounded: every routine agrees with exact even-odd counting off the boundary, whatever the vertex order, start and closing"""
    poly = polygon(B)
    keep = poly.copy()
    pts = []
    for _ in range(12):
        k = B.choice('kind', ['grid', 'any', 'vertex-height', 'mid'])
        if k == 'grid':
            pts.append((float(B.int('px', lo=-22, hi=22)), float(B.int('py', lo=-22, hi=22)), B.real('z', lo=-5, hi=5)))
        elif k == 'any':
            pts.append((B.real('px', lo=-200, hi=200), B.real('py', lo=-100, hi=100), 0.))
        elif k == 'vertex-height':
            pts.append((B.real('px', lo=-200, hi=200), poly[B.int('vi', lo=0, hi=len(poly) - 1)][1], 1.))
        else:
            pts.append(tuple(poly[[B.int('vi', lo=0, hi=len(poly) - 1) for _ in range(3)]].mean(0)) + (2.,))
    pts = np.array(pts)
    kp = pts.copy()
    got = points_in_poly(poly, pts)
    B.prove('one-answer-per-point', got.shape == (len(pts),) and got.dtype == bool)
    B.prove('inputs-kept', (poly == keep).all() and (pts == kp).all())
    rot = np.ascontiguousarray(np.roll(poly, B.int('roll', lo=1, hi=len(poly) - 1), axis=0))
    rev = np.ascontiguousarray(poly[::-1])
    closed = np.vstack([poly, poly[:1]])
    g = [points_in_poly(q, pts) for q in (rot, rev, closed)]
    stack = points_in_polys(np.ascontiguousarray(np.stack([poly] * len(pts))), np.ascontiguousarray(pts[:, :2]))
    py = py_points_in_poly(poly, pts.copy())
    for i, (x, y, z) in enumerate(pts):
        want = inside_oracle(poly, x, y)
        if want is None:
            continue
        B.prove('even-odd', bool(got[i]) == want, '%s %s' % (poly.tolist(), (x, y)))
        B.prove('single-point', bool(points_in_poly(poly, pts[i])) == want and bool(point_in_poly(poly, (x, y))) == want)
        B.prove('one-polygon-per-point', bool(stack[i]) == want)
        B.prove('vertex-order-start-and-closing-do-not-matter', all(bool(q[i]) == want for q in g))
        B.prove('python-version-agrees', bool(py[i]) == want, '%s %s' % (poly.tolist(), (x, y)))


def edge_counts(xi, yi, xj, yj, px, py):
    """the edge (in either direction) crosses the ray from the point towards +x: half-open in height, without a division"""
    side = (px - xi) * (yj - yi) - (xj - xi) * (py - yi)
    return Or(And(yi <= py, py < yj, side < 0), And(yj <= py, py < yi, side > 0))


def pip_parity(B):
    """c_point_in_poly1 for polygons of any number of vertices: the answer is the parity of the edges that cross the ray
    (ghost function odd[k]: parity over the first k edges; loop invariant: c is the parity of the edges seen so far)"""
    N = B.dim('N', 1)
    N1 = B.dim('N1', 2)
    vx, vy = B.array('vx', (N,), lo=-1000, hi=1000), B.array('vy', (N,), lo=-1000, hi=1000)
    px, py = B.real('px', lo=-1000, hi=1000), B.real('py', lo=-1000, hi=1000)
    if not B.symbolic:
        n = len(vx)
        if n < 3:
            return
        poly = np.column_stack([vx, vy]).astype(float)
        on = B.choice('on', [0, 1])
        if on:
            py = float(vy[B.int('k', lo=0, hi=n - 1)])
        want = inside_oracle(poly, px, py)
        if want is not None:
            B.prove('answers-the-parity-of-all-edges', bool(point_in_poly(poly, (px, py))) == want, [poly.tolist(), px, py])
        return
    n = N.n
    B.assume(N1.n == n + 1)
    odd = B.array('odd', (N1,), dtype=np.int64, choices=[0, 1])

    def counts(i):
        j = Ite(i >= 1, i - 1, n - 1)
        return edge_counts(B.at(vx, i), B.at(vy, i), B.at(vx, j), B.at(vy, j), px, py)

    def define(k):
        """odd[0] = 0, odd[k] = odd[k - 1] xor (edge k - 1 crosses)"""
        B.assume(B.at(odd, 0) == 0)
        if not isinstance(k, Sym):
            if k == 0:
                return
        p = k - 1
        B.assume(Implies(And(k >= 1, k <= n), B.at(odd, k) == Ite(counts(Ite(p >= 0, p, 0)), 1 - B.at(odd, Ite(p >= 0, p, 0)), B.at(odd, Ite(p >= 0, p, 0)))))

    def inv(L):
        i, j, c = L.i, L.j, L.c
        define(i)
        return [('index-in-range', And(i >= 0, i <= n)), ('previous-vertex', j == Ite(i >= 1, i - 1, n - 1)), ('parity-so-far', Ite(truth(c), 1, 0) == B.at(odd, i))]

    def vert(k):
        # vertices[2*i] is the x, vertices[2*i+1] the y of vertex i
        B.prove('reads-inside-the-polygon', And(k >= 0, k < 2 * n))
        q = k // 2
        return Ite(k == 2 * q, B.at(vx, q), B.at(vy, q))

    def point(k):
        B.prove('reads-inside-the-point', And(k >= 0, k <= 1))
        return Ite(k == 0, px, py)
    fresh = {'i': lambda: B.int('i', lo=0), 'j': lambda: B.int('j', lo=0), 'c': lambda: B.choice('c', [0, 1])}
    it = Interp(B, GEO + 'c_point_in_polygon.c', loops={0: cint.Invariant('edges', inv, lambda nm: fresh[nm]() if nm in fresh else None, variant=lambda L: n - L.i)})
    r = it.call('c_point_in_poly1', n, Arr(vert), Arr(point))
    define(n)
    B.prove('answers-the-parity-of-all-edges', Ite(truth(r), 1, 0) == B.at(odd, n))


def pip_lemmas(B):
    """lemmas over the edge contract: direction and degenerate edges do not matter, and of the triangles that share an edge
    exactly one holds a point of it; and c_point_in_poly1 itself on every triangle, exactly"""
    ax, ay, bx, by, cx, cy, px, py = [B.real(k, lo=-100, hi=100) for k in ('ax', 'ay', 'bx', 'by', 'cx', 'cy', 'px', 'py')]
    if B.symbolic:
        E = edge_counts(ax, ay, bx, by, px, py)
        R = edge_counts(bx, by, ax, ay, px, py)
        B.prove('direction-does-not-matter', Or(And(E, R), And(Not(E), Not(R))))
        B.prove('a-repeated-vertex-adds-nothing', Not(edge_counts(ax, ay, ax, ay, px, py)))
        it = Interp(B, GEO + 'c_point_in_polygon.c')
        v = [ax, ay, bx, by, cx, cy]
        got = truth(it.call('c_point_in_poly1', 3, Arr(lambda k: v[k]), Arr(lambda k: (px, py)[k])))
    else:
        got = bool(point_in_poly(np.array([[ax, ay], [bx, by], [cx, cy]]), (px, py)))
    o = lambda x1, y1, x2, y2: (x2 - x1) * (py - y1) - (y2 - y1) * (px - x1)
    s1, s2, s3 = o(ax, ay, bx, by), o(bx, by, cx, cy), o(cx, cy, ax, ay)
    e = 0 if B.symbolic else 1e-6
    B.prove('inside-a-triangle', Implies(Or(And(s1 > e, s2 > e, s3 > e), And(s1 < -e, s2 < -e, s3 < -e)), got))
    B.prove('outside-a-triangle', Implies(And(Or(s1 > e, s2 > e, s3 > e), Or(s1 < -e, s2 < -e, s3 < -e)), Not(got) if B.symbolic else not got))


def shared_boundary(B):
    """bounded: a point on a common boundary is in exactly one of the polygons that share it (coordinates exact in floating point)"""
    s = B.choice('s', [1., 0.25, 1024.])
    kind = B.choice('kind', ['tiles', 'diagonal'])
    if kind == 'tiles':
        nx, ny = B.int('nx', lo=1, hi=4), B.int('ny', lo=1, hi=4)
        cells = [np.array([(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)], dtype=float) * s for i in range(nx) for j in range(ny)]
    else:
        nx = ny = B.choice('n', [2, 4])
        cells = [np.array([(0, 0), (nx, 0), (nx, nx)], dtype=float) * s, np.array([(0, 0), (nx, nx), (0, nx)], dtype=float) * s]
    cells = [np.ascontiguousarray(c[::B.choice('dir', [1, -1])]) for c in cells]
    for _ in range(8):
        x, y = B.int('px', lo=1, hi=2 * nx - 1) / 2 * s, B.int('py', lo=1, hi=2 * ny - 1) / 2 * s
        if not (0 < x < nx * s and 0 < y < ny * s):
            continue
        n = sum(bool(points_in_poly(c, np.array([x, y, 0.]))) for c in cells)
        B.prove('in-exactly-one', n == 1, '%s in %d of %s' % ((x, y), n, [c.tolist() for c in cells]))


def clockwise(B):
    """bounded: orientation is the sign of the exact area"""
    poly = polygon(B, grid=B.choice('g', [4, 50]))
    P = [(Fraction(float(a)), Fraction(float(b))) for a, b in poly]
    area = sum(P[i][0] * P[(i + 1) % len(P)][1] - P[(i + 1) % len(P)][0] * P[i][1] for i in range(len(P)))
    if area:
        B.prove('clockwise', is_clockwise(poly) == (area < 0))
        B.prove('clockwise-closed', is_clockwise(np.vstack([poly, poly[:1]])) == (area < 0))
    t = poly[:3]
    a3 = sum(P[i][0] * P[(i + 1) % 3][1] - P[(i + 1) % 3][0] * P[i][1] for i in range(3))
    if a3:
        B.prove('clockwise-convex', is_clockwise_convex(t) == (a3 < 0))


def clockwise_tri(B):
    """orientation of any triangle, exactly"""
    p = [(B.real('x%d' % k, lo=-400, hi=400), B.real('y%d' % k, lo=-400, hi=400)) for k in range(3)]
    (x0, y0), (x1, y1), (x2, y2) = p
    twice = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    B.assume(Or(twice > 1e-6, twice < -1e-6))
    B.prove('clockwise', eq(B, is_clockwise(p), twice < 0))
    B.prove('clockwise-convex', eq(B, is_clockwise_convex(p), twice < 0))


def poly_set(B):
    """bounded: a set is the list of the polygons put in, with their metadata; copies are independent"""
    ps, want = PolygonSet(), []
    for k in range(B.int('n', lo=0, hi=6)):
        pts = polygon(B, n=B.choice('len', [1, 2, 3, 4, 7]))
        md = B.choice('md', [None, ('a', k), {'k': k}])
        if B.bool('as-polygon'):
            ps.append(Polygon(pts, metadata=md if md is not None else {'p': k}))
            want.append((pts, md if md is not None else {'p': k}))
        else:
            ps.append(pts.tolist() if B.bool('list') else pts, md)
            want.append((pts, md if md is not None else {}))

    def same(s, name):
        B.prove(name + '-length', len(s) == len(want) and bool(s) == bool(want) and s.total_num_points == sum(len(p) for p, _ in want))
        got = list(s)
        B.prove(name + '-iteration', len(got) == len(want))
        for i, (p, md) in enumerate(want):
            for q in (got[i], s[i], s[i - len(want)]):
                B.prove(name + '-points', np.array_equal(np.asarray(q), p) and q.metadata == md, '%d' % i)
        for i in (len(want), len(want) + 1, -len(want) - 1):
            try:
                s[i]
                B.prove(name + '-index-out-of-range-refused', False, '%d' % i)
            except IndexError:
                pass
        if want:
            al = np.vstack([p for p, _ in want])
            B.prove(name + '-box', np.asarray(s.bounding_box).tolist() == [al.min(0).tolist(), al.max(0).tolist()])
        else:
            B.prove(name + '-no-box', s.bounding_box is None)
    same(ps, 'set')
    cp = ps.Copy()
    same(cp, 'copy')
    data = ps.GetPointsData()
    data[0][:] = 77.
    data[1][:] = 3
    ps.GetMetaData().append('x')
    same(ps, 'after-changing-what-was-handed-out')
    cp.TransformData(lambda p: p + 1)
    for i, (p, md) in enumerate(want):
        B.prove('transformed', np.array_equal(np.asarray(cp[i]), p + 1))
        if isinstance(cp[i].metadata, dict):
            cp[i].metadata['more'] = 1
    same(ps, 'after-changing-the-copy')
    for q in ps:
        q += 5.
    same(ps, 'after-changing-an-element')
    o = PolygonSet()
    if want:
        o.SetPointsData(ps.GetPointsData(), ps.GetMetaData())
        same(o, 'set-from-data')
    d = ps.GetPointsData()
    o = PolygonSet((d[0], d[1], ps.GetMetaData()))
    same(o, 'set-made-from-data')
    if want:
        d0 = [d[0].copy(), d[1].copy()]
        alone = PolygonSet((d[0], d[1], ps.GetMetaData()))
        alone.TransformData(lambda p: np.add(p, 1, out=p))
        alone.append([(0., 0.), (1., 1.), (2., 0.)])
        B.prove('data-handed-in-stay-the-callers', np.array_equal(d[0], d0[0]) and np.array_equal(d[1], d0[1]))
        d[0][:] = 5.
        same(o, 'after-changing-what-was-handed-in')
        d[0][:] = d0[0]
    B.prove('sets-with-the-same-polygons-are-equal', o == ps and not (o != ps) and cp.Copy() == cp)
    B.prove('a-set-is-not-equal-to-other-things', ps != [np.asarray(q) for q in ps] and ps != 3)
    if want:
        k = B.int('k', lo=0, hi=len(want) - 1)
        B.prove('sets-with-other-points-differ', cp != ps)
        al, cut = np.vstack([p for p, _ in want]), B.int('cut', lo=0, hi=6)
        if 0 < cut < len(al):
            x, y = PolygonSet((al, [0, cut, len(al)], [1, 2])), PolygonSet((al, [0, 1, len(al)], [1, 2]))
            B.prove('sets-that-split-the-points-differently-differ', (x == y) == (cut == 1))
        a, b, c = ps[k], Polygon(want[k][0], metadata=want[k][1]), Polygon(want[k][0], metadata={'other': 1})
        B.prove('polygons-are-equal-by-points-and-metadata', a == b and not (a != b) and a != c and a != want[k][0] and not (a == want[k][0]))
        far = want[k][0].copy()
        far[B.int('v', lo=0, hi=len(far) - 1), B.choice('xy', [0, 1])] += 1.
        B.prove('polygons-with-another-point-differ', a != Polygon(far, metadata=want[k][1]))
        sl = a[:2]
        B.prove('a-slice-keeps-points-and-metadata', isinstance(sl, Polygon) and np.array_equal(np.asarray(sl), want[k][0][:2]) and sl.metadata == want[k][1])
        moved = a + 1.
        B.prove('a-computed-polygon-keeps-metadata', np.array_equal(np.asarray(moved), want[k][0] + 1.) and getattr(moved, 'metadata', None) == want[k][1])
        B.prove('points-as-plain-array', type(a.points) is np.ndarray and np.array_equal(a.points, want[k][0]))
    extra = np.array([[0., 0.], [1., 0.], [0., 2.]])
    o.append(extra, 'last')
    want.append((extra, 'last'))
    same(o, 'appended-to-a-set-made-from-data')


def thin(B):
    """bounded: thinning keeps a subsequence that draws the same pixels"""
    poly = polygon(B, n=B.int('nv', lo=1, hi=14), grid=B.choice('g', [2, 6, 0]))
    if B.bool('closed'):
        poly = np.vstack([poly, poly[:1]])
    if B.bool('dups'):
        poly = np.repeat(poly, B.choice('rep', [2, 3]), axis=0)
    scale = (B.choice('sx', [.1, .5, 1., 3.]), B.choice('sy', [.1, .5, 1., 3.]))
    P = Polygon(poly, metadata={'a': 1})
    t = P.thin(scale)
    px = lambda q: [tuple(v) for v in np.round(np.asarray(q) * scale)]

    def runs(q):
        out = []
        for v in q:
            if not out or out[-1] != v:
                out.append(v)
        return out
    full = runs(px(poly))
    if len(t):
        got = px(t)
        B.prove('draws-the-same', runs(got) == full, '%s thinned to %s' % (poly.tolist(), np.asarray(t).tolist()))
        it = iter(poly.tolist())
        B.prove('kept-points-are-the-originals-in-order', all(any(v == w for w in it) for v in np.asarray(t).tolist()))
        B.prove('metadata', t.metadata == {'a': 1})
        if np.array_equal(poly[0], poly[-1]):
            B.prove('stays-closed', np.array_equal(np.asarray(t)[0], np.asarray(t)[-1]))
    else:
        B.prove('removed-only-when-it-draws-one-pixel', len(set(full)) == 1 or len(full) == 1, '%s' % full)
    B.prove('original-kept', np.array_equal(np.asarray(P), poly))


G = 'gnome.utilities.geometry.'
HARNESSES = [
    H('boxes', boxes, conc=400, functions=[G + 'BBox.BBox.' + f for f in ('Overlaps', 'Inside', 'PointInside', 'AsPoly', 'Left', 'Right', 'Top', 'Bottom', 'Width', 'Height', 'Center')]),
    H('merge', merge, conc=200, functions=[G + 'BBox.BBox.Merge']),
    H('from_points', from_points, conc=200, functions=[G + 'BBox.fromPoints']),
    H('box_bounded', box_bounded, sym=False, conc=500, functions=[G + 'BBox.BBox.__new__', G + 'BBox.fromBBArray', G + 'BBox.asBBox', G + 'BBox.NullBBox', G + 'BBox.InfBBox']),
    H('shift_lon', shift_lon, conc=200, functions=['gnome.maps.map.ShiftLon360', 'gnome.maps.map.ShiftLon180']),
    H('clockwise_tri', clockwise_tri, conc=200, functions=[G + 'poly_clockwise.is_clockwise', G + 'poly_clockwise.is_clockwise_convex']),
    H('pip_parity', pip_parity, conc=400, functions=[G + 'c_point_in_polygon.c_point_in_poly1']),
    H('pip_lemmas', pip_lemmas, conc=300, functions=[G + 'c_point_in_polygon.c_point_in_poly1']),
    H('pip', pip, sym=False, conc=1500, functions=[G + 'c_point_in_polygon.c_point_in_poly1', G + 'cy_point_in_polygon', G + 'PinP.CrossingsTest']),
    H('shared_boundary', shared_boundary, sym=False, conc=600, functions=[G + 'c_point_in_polygon.c_point_in_poly1']),
    H('clockwise', clockwise, sym=False, conc=400, functions=[G + 'poly_clockwise.is_clockwise']),
    H('poly_set', poly_set, sym=False, conc=300, functions=[G + 'polygons.PolygonSet']),
    H('thin', thin, sym=False, conc=500, functions=[G + 'polygons.Polygon.thin', G + 'polygons.PolygonSet.thin']),
]
