"""C13 projections: pixel <-> lon/lat and metre <-> degree conversions are mutually inverse"""
from .common import *
import gnome.utilities.projections as P

KINDS = ['GeoProjection', 'FlatEarthProjection', 'RegularGridProjection']


def box(B):
    x0 = B.real('lon0', lo=-180, hi=180)
    y0 = B.real('lat0', lo=-85, hi=85)
    w = B.real('w', lo=1e-3, hi=360)
    h = B.real('h', lo=1e-3, hi=170)
    B.assume(y0 + h <= 85)
    return ((x0, y0), (x0 + w, y0 + h))


def make(B, kind):
    bb = box(B)
    iw, ih = B.int('iw', lo=1, hi=4000), B.int('ih', lo=1, hi=4000)
    p = getattr(P, kind)(bb, (iw, ih))
    return p, bb, iw, ih


def mk_roundtrip(kind):
    def h(B):
        p, bb, iw, ih = make(B, kind)
        N = B.dim('N', 1)
        depth = B.choice('depth', [2, 3])
        X = B.array('X', (N, depth), lo=-360, hi=360)
        X0 = X.copy()
        px = p.to_pixel(X)
        if depth == 2:
            pm = p.to_pixel_multipoint(X)
            B.forall('many-points-as-the-others', (N, 2), lambda i, j: B.close(B.at(pm, i, j), B.at(px, i, j), 1e-9))
        back = p.to_lonlat(px.copy())
        B.forall('lonlat-to-pixel-to-lonlat', (N, 2), lambda i, j: B.close(B.at(back, i, j), B.at(X0, i, j), 1e-8))
        B.forall('to_pixel-leaves-input', (N, depth), lambda i, j: B.at(X, i, j) == B.at(X0, i, j))
        Q = B.array('Q', (N, 2), lo=-5000, hi=5000)
        Q0 = Q.copy()
        ll = p.to_lonlat(Q)
        B.forall('to_lonlat-leaves-input', (N, 2), lambda i, j: B.at(Q, i, j) == B.at(Q0, i, j))
        again = p.to_pixel(ll)
        B.forall('pixel-to-lonlat-to-pixel', (N, 2), lambda i, j: B.close(B.at(again, i, j), B.at(Q0, i, j), 1e-6))
    return h


def mk_intpix(kind):
    """integer pixels: floor, containment, and pixel centres map back to the pixel"""
    def h(B):
        p, bb, iw, ih = make(B, kind)
        N = B.dim('N', 1)
        X = B.array('X', (N, 2), lo=-360, hi=360)
        f = p.to_pixel(X)
        n = p.to_pixel(X, asint=True)
        B.forall('pixel-is-floor', (N, 2), lambda i, j: And(B.at(n, i, j) <= B.at(f, i, j), B.at(f, i, j) < B.at(n, i, j) + 1))
        Q = B.array('Q', (N, 2), dtype=np.int32, lo=-3000, hi=3000)
        Q0 = Q.copy()
        ll = p.to_lonlat(Q)
        again = p.to_pixel(ll, asint=True)
        B.forall('pixel-centre-in-its-pixel', (N, 2), lambda i, j: B.at(again, i, j) == B.at(Q0, i, j))
    return h


def mk_box(kind):
    """the bounding box fits inside the image, is centred, and y grows downward"""
    def h(B):
        p, bb, iw, ih = make(B, kind)
        c = np.array([[bb[0][0], bb[0][1]], [bb[1][0], bb[1][1]]])
        px = p.to_pixel(c)
        e = 1e-6
        B.prove('box-inside-image', And(B.le(-e, B.at(px, 0, 0)), B.le(B.at(px, 1, 0), iw + e), B.le(-e, B.at(px, 1, 1)), B.le(B.at(px, 0, 1), ih + e)))
        B.prove('box-centred-x', B.close(B.at(px, 0, 0) + B.at(px, 1, 0), iw, 1e-6))
        B.prove('box-centred-y', B.close(B.at(px, 0, 1) + B.at(px, 1, 1), ih, 1e-6))
        B.prove('north-up', And(B.lt(B.at(px, 1, 1), B.at(px, 0, 1)), B.lt(B.at(px, 0, 0), B.at(px, 1, 0))))
    return h


def meters(B):
    F = P.FlatEarthProjection
    N = B.dim('N', 1)
    D = B.array('D', (N, 3), lo=-1e6, hi=1e6)
    R = B.array('R', (N, 3), lo=-89, hi=89)
    D0, R0 = D.copy(), R.copy()
    dl = F.meters_to_lonlat(D, R)
    B.forall('inputs-untouched', (N, 3), lambda i, j: And(B.at(D, i, j) == B.at(D0, i, j), B.at(R, i, j) == B.at(R0, i, j)))
    B.forall('depth-passes-through', (N,), lambda i: B.at(dl, i, 2) == B.at(D0, i, 2))
    B.forall('latitude-scale', (N,), lambda i: B.close(B.at(dl, i, 1), B.at(D0, i, 1) * 8.9992801e-06))
    back = F.lonlat_to_meters(dl, R)
    if not B.symbolic:
        for w in (2, 3):
            one = F.meters_to_lonlat(D0[0, :w], R0[0])
            B.prove('single-position', one.shape == (1, w) and np.allclose(one[0], dl[0, :w], rtol=1e-12), [one, dl[0]])
            many = F.meters_to_lonlat(D0[:, :w].tolist(), R0[:, :2].tolist())
            B.prove('lists', many.shape == (len(D0), w) and np.allclose(many, dl[:, :w], rtol=1e-12))
    B.forall('meters-round-trip', (N, 3), lambda i, j: B.close(B.at(back, i, j), B.at(D0, i, j), 1e-8))
    L = B.array('L', (N, 3), lo=-10, hi=10)
    L0 = L.copy()
    m = F.lonlat_to_meters(L, R)
    B.forall('lonlat-untouched', (N, 3), lambda i, j: B.at(L, i, j) == B.at(L0, i, j))
    fwd = F.meters_to_lonlat(m, R)
    B.forall('degrees-round-trip', (N, 3), lambda i, j: B.close(B.at(fwd, i, j), B.at(L0, i, j), 1e-8))


def rectangular(B):
    """bounded: irregular rectangular grid (scipy interpolation)"""
    nx, ny = B.int('nx', lo=2, hi=8), B.int('ny', lo=2, hi=8)
    dx = [B.real('dx', lo=0.01, hi=3) for _ in range(nx)]
    dy = [B.real('dy', lo=0.01, hi=3) for _ in range(ny)]
    lon, lat = np.cumsum(dx) - 5, np.cumsum(dy) + 40
    p = P.RectangularGridProjection(lon, lat)
    N = B.dim('N', 1)
    f = B.array('F', (N, 2), lo=0, hi=1)
    X = np.c_[lon[0] + f[:, 0] * (lon[-1] - lon[0]), lat[0] + f[:, 1] * (lat[-1] - lat[0])]
    X0 = X.copy()
    px = p.to_pixel(X)
    B.prove('input-untouched', bool((X == X0).all()))
    B.prove('pixels-in-grid', bool((px >= 0).all() and (px[:, 0] <= nx - 1).all() and (px[:, 1] <= ny - 1).all()))
    B.prove('lonlat-to-pixel-to-lonlat', bool(np.allclose(p.to_lonlat(px), X0, atol=1e-8)))
    Q = np.c_[f[:, 0] * (nx - 1), f[:, 1] * (ny - 1)]
    Q0 = Q.copy()
    ll = p.to_lonlat(Q)
    B.prove('pixels-untouched', bool((Q == Q0).all()))
    B.prove('pixel-to-lonlat-to-pixel', bool(np.allclose(p.to_pixel(ll), Q0, atol=1e-7)))
    far = X0 + B.real('off', lo=-50, hi=50)
    far0 = far.copy()
    out = p.to_pixel(far)
    B.prove('far-input-untouched', bool((far == far0).all()))
    B.prove('clamped-to-grid', bool((out >= 0).all() and (out[:, 0] <= nx - 1).all() and (out[:, 1] <= ny - 1).all()))


HARNESSES = []
for _k in KINDS:
    HARNESSES += [H('roundtrip_' + _k, mk_roundtrip(_k), functions=[_k + '.set_scale', 'GeoProjection.to_pixel', 'GeoProjection.to_lonlat', 'to_2d_coords']),
                  H('intpix_' + _k, mk_intpix(_k), functions=[_k + '.set_scale', 'GeoProjection.to_pixel', 'GeoProjection.to_lonlat']),
                  H('box_' + _k, mk_box(_k), functions=[_k + '.set_scale', 'GeoProjection.to_pixel'])]
HARNESSES.append(H('rectangular', rectangular, sym=False, conc=300, functions=['RectangularGridProjection.to_pixel', 'RectangularGridProjection.to_lonlat']))
HARNESSES.append(H('meters', meters, functions=['FlatEarthProjection.meters_to_lonlat', 'FlatEarthProjection.lonlat_to_meters']))
ASSUMPTIONS = ['latitudes within +-85 (boxes) and +-89 (reference positions) degrees: cosine of the reference latitude is positive']
