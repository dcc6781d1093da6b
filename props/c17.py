"""C17 polar <-> cartesian wind and current conversions"""
from .common import *
from gnome.utilities import transforms as T

PI = float(np.pi)


def trig(B, deg):
    if B.symbolic:
        from pyvc.shims import MATH as m
    else:
        import math as m
    a = m.radians(deg)
    return m.sin(a), m.cos(a)


def mk_to_uv(fn, sign):
    def h(B):
        N = B.dim('N', 1)
        r = B.array('r', (N,), lo=0, hi=1e4)
        th = B.array('th', (N,), lo=0, hi=360)
        rt = np.zeros((N.n, 2)) if not B.symbolic else None
        if B.symbolic:
            from pyvc.arrays import NP
            rt = NP.stack([r, th], axis=1)
        else:
            rt[:, 0], rt[:, 1] = r, th
        rt0 = rt.copy()
        uv = getattr(T, fn)(rt)
        e = 2e-9

        def ok(i):
            s, c = trig(B, B.at(th, i))
            du = B.at(uv, i, 0) - sign * B.at(r, i) * s
            dv = B.at(uv, i, 1) - sign * B.at(r, i) * c
            return And(du <= e, du >= -e, dv <= e, dv >= -e)
        B.forall('components-follow-the-convention', (N,), ok)
        B.forall('input-untouched', (N, 2), lambda i, j: B.at(rt, i, j) == B.at(rt0, i, j))
    return h


def mk_to_rt(fn, sign):
    def h(B):
        N = B.dim('N', 1)
        uv = B.array('uv', (N, 2), lo=-1e4, hi=1e4)
        uv0 = uv.copy()
        rt = getattr(T, fn)(uv)
        B.forall('direction-in-range', (N,), lambda i: And(B.at(rt, i, 1) >= 0, B.at(rt, i, 1) < 360))
        B.forall('speed-nonneg', (N,), lambda i: B.at(rt, i, 0) >= 0)
        B.forall('speed-is-norm', (N,), lambda i: B.close(B.at(rt, i, 0) * B.at(rt, i, 0), B.at(uv0, i, 0) * B.at(uv0, i, 0) + B.at(uv0, i, 1) * B.at(uv0, i, 1), 1e-9))

        def back(i):
            s, c = trig(B, B.at(rt, i, 1))
            return And(B.close(sign * B.at(rt, i, 0) * s, B.at(uv0, i, 0), 1e-8), B.close(sign * B.at(rt, i, 0) * c, B.at(uv0, i, 1), 1e-8))
        B.forall('components-recovered', (N,), back)
        B.forall('input-untouched', (N, 2), lambda i, j: B.at(uv, i, j) == B.at(uv0, i, j))
    return h


def mk_round(f, g):
    """bounded: float round trips through both functions, including the cardinal directions"""
    def h(B):
        N = B.dim('N', 1)
        r = B.array('r', (N,), lo=1e-3, hi=1e3)
        th = B.array('th', (N,), gen=lambda q: q.choice([0., 90., 180., 270., 360., 45., 359.999999, q.uniform(0, 360), 1e-7]))
        rt = np.c_[r, th]
        back = getattr(T, g)(getattr(T, f)(rt))
        B.prove('speed', bool(np.allclose(back[:, 0], r, rtol=1e-9)))
        d = np.abs(back[:, 1] - th) % 360
        d = np.minimum(d, 360 - d)
        B.prove('direction', bool((d < 1e-6).all()))
        uv = B.array('uv', (N, 2), gen=lambda q: q.choice([0., 1., -1., q.uniform(-50, 50), q.uniform(-1e-3, 1e-3)]))
        tiny = B.array('tiny', (N, 2), gen=lambda q: q.choice([0., -0., 1., -1., 10. ** q.uniform(-40, 3), -10. ** q.uniform(-40, 3)]))
        rt = getattr(T, g)(tiny)
        B.prove('range', bool(((rt[:, 1] >= 0) & (rt[:, 1] < 360) & (rt[:, 0] >= 0)).all()), [tiny, rt])
        B.prove('uv', bool(np.allclose(getattr(T, f)(getattr(T, g)(uv)), uv, atol=1e-9)))
    return h


def reject(B):
    """out-of-range polar input is refused"""
    r, th = B.real('r', lo=-10, hi=10), B.real('th', lo=-400, hi=800)
    bad = Or(r < 0, th < 0, th > 360)
    for fn in ('r_theta_to_uv_wind', 'r_theta_to_uv_current'):
        try:
            getattr(T, fn)(np.array([[r, th]]) if not B.symbolic else _arr(r, th))
            B.prove('accepted-only-valid', Not(bad))
        except ValueError:
            B.prove('refused-only-invalid', bad)


def _arr(r, th):
    from pyvc.arrays import NP
    return NP.array([[r, th]])


HARNESSES = [
    H('to_uv_wind', mk_to_uv('r_theta_to_uv_wind', -1), functions=['r_theta_to_uv_wind']),
    H('to_uv_current', mk_to_uv('r_theta_to_uv_current', 1), functions=['r_theta_to_uv_current', 'r_theta_to_uv_wind']),
    H('to_rt_wind', mk_to_rt('uv_to_r_theta_wind', -1), functions=['uv_to_r_theta_wind']),
    H('to_rt_current', mk_to_rt('uv_to_r_theta_current', 1), functions=['uv_to_r_theta_current', 'uv_to_r_theta_wind']),
    H('round_wind', mk_round('r_theta_to_uv_wind', 'uv_to_r_theta_wind'), sym=False, functions=['r_theta_to_uv_wind', 'uv_to_r_theta_wind']),
    H('round_current', mk_round('r_theta_to_uv_current', 'uv_to_r_theta_current'), sym=False, functions=['r_theta_to_uv_current', 'uv_to_r_theta_current']),
    H('reject', reject, functions=['r_theta_to_uv_wind']),
]
