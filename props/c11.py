"""C11 movement: a step moves every element by the sum of what its active movers say, and only elements in the water"""
import datetime
from .common import *
from gnome.basic_types import oil_status
from gnome.model import Model
from gnome.movers import SimpleMover, CurrentMover, WindMover
from gnome.maps import GnomeMap

IN, LAND = oil_status.in_water, oil_status.on_land
ST = [0, IN, LAND, oil_status.on_tideflat, oil_status.to_be_removed]
K = 8.9992801e-06        # degrees of latitude per metre (GNOME's flat earth)


def state(B, N, **more):
    a = dict(positions=B.array('pos', (N, 3), lo=-80, hi=80), next_positions=B.array('nxt', (N, 3), lo=-80, hi=80),
             last_water_positions=B.array('lw', (N, 3), lo=-80, hi=80), status_codes=B.array('st', (N,), dtype=np.int16, choices=ST),
             mass=B.array('mass', (N,), lo=0, hi=1000))
    a.update(more)
    return a


def compose(B):
    """the model's own loop: positions move by the sum of the movers' moves; the map sees that sum and has the last word"""
    N = B.dim('N', 1)
    unc = B.bool('unc')
    a = state(B, N)
    sc = make_sc(B, a, None, uncertain=unc)
    old = {k: v.copy() for k, v in a.items()}
    sc.mass_balance = dict(off_maps=0., beached=0.)
    back = B.choice('backwards', [False, True])
    m = Model(start_time=datetime.datetime(2020, 1, 1), time_step=900, run_backwards=back)
    nm = B.choice('movers', [0, 1, 2, 3])
    D = [B.array('d%d' % k, (N, 3), lo=-1, hi=1) for k in range(nm)]
    D0 = [d.copy() for d in D]
    seen = []

    def mover(k):
        def get_move(sc_, dt, t):
            seen.append((k, dt, t))
            return D[k]
        return Obj(get_move=get_move, on=True, active=True)
    M = [mover(k) for k in range(nm)]
    B.patch(m, 'movers', M)
    B.patch(m, 'spills', Obj(items=lambda: [sc]))
    B.patch(sc, 'get_substances', lambda *x, **k: [])
    beached = {}

    def beach(sc_, t=None):
        beached['nxt'] = sc_['next_positions'].copy()
    B.patch(m.map, 'beach_elements', beach)
    B.patch(m.map, 'refloat_elements', lambda *x: None)
    m.move_elements()

    def want(i, j):
        e = B.at(old['positions'], i, j)
        for d in D0:
            e = e + B.at(d, i, j)
        return e
    B.prove('every-mover-asked-once', sorted(k for k, _, _ in seen) == list(range(nm)), seen)
    B.prove('asked-for-this-step', all(dt == (-900 if back else 900) and t == m.model_time for _, dt, t in seen))
    B.forall('map-sees-the-sum', (N, 3), lambda i, j: B.close(B.at(beached['nxt'], i, j), want(i, j), 1e-9))
    B.forall('moved-by-the-sum', (N, 3), lambda i, j: B.close(B.at(sc['positions'], i, j), want(i, j), 1e-9))
    B.forall('mass-untouched', (N,), lambda i: B.at(sc['mass'], i) == B.at(old['mass'], i))
    for k in range(nm):
        B.forall('movers-arrays-untouched', (N, 3), lambda i, j: B.at(D[k], i, j) == B.at(D0[k], i, j))


def active(B):
    """a process is active exactly when it is on and its range contains the middle of the step"""
    from gnome.utilities.inf_datetime import InfDateTime
    on = B.bool('on')
    t = B.datetime('t')
    dt = B.real('dt', lo=1, hi=86400) * B.choice('sgn', [1, -1])
    kind = B.choice('kind', ['open', 'from', 'until', 'both'])
    a, b = B.datetime('a'), B.datetime('b')
    if kind == 'both':
        B.assume(B.secs(a) < B.secs(b))
    lo = a if kind in ('from', 'both') else InfDateTime('-inf')
    hi = b if kind in ('until', 'both') else InfDateTime('inf')
    p = SimpleMover((1, 0, 0))
    p.on = on
    p.active_range = (lo, hi)
    p.prepare_for_model_step(None, dt, t)
    mid = B.secs(t) + dt / 2
    inside = And(B.secs(a) <= mid if kind in ('from', 'both') else True, mid <= B.secs(b) if kind in ('until', 'both') else True)
    slack = 1e-5       # datetimes hold microseconds
    near = Or(abs(B.secs(a) - mid) < slack, abs(B.secs(b) - mid) < slack)
    got, want = p.active, And(on, inside)
    B.prove('active-iff-mid-step-in-range-and-on', Or(near, And(got, want), And(Not(got), Not(want))))


def simple(B):
    """constant velocity: v*dt in metres converted at the element's own latitude; only in the water, only while active"""
    N = B.dim('N', 1)
    a = state(B, N)
    unc = B.bool('unc')
    sc = make_sc(B, a, None, uncertain=unc)
    old = {k: v.copy() for k, v in a.items()}
    v = [B.real('v%d' % j, lo=-5, hi=5) for j in range(3)]
    scale = B.real('us', lo=0, hi=1)
    m = SimpleMover((0, 0, 0), uncertainty_scale=scale)
    m.velocity = npx(B).array(v)
    on, act = B.choice('on', [True, False]), B.choice('act', [True, False])
    m.on, m._active = on, act
    dt = B.real('dt', lo=1, hi=86400) * B.choice('sgn', [1, -1])
    d = m.get_move(sc, dt, datetime.datetime(2020, 1, 1))
    frame(B, sc, old, N)
    go = on and act
    check_delta(B, d, old, N, go, lambda i, j: v[j] * dt, (lambda j: abs(v[j] * dt) * scale) if unc else None)


def frame(B, sc, old, N):
    B.forall('elements-untouched', (N, 3), lambda i, j: And(B.at(sc['positions'], i, j) == B.at(old['positions'], i, j),
                                                            B.at(sc['next_positions'], i, j) == B.at(old['next_positions'], i, j),
                                                            B.at(sc['status_codes'], i) == B.at(old['status_codes'], i), B.at(sc['mass'], i) == B.at(old['mass'], i)))


def metres(B, d, pos, i, j):
    """the metres that make up the degrees d[i, j] at pos[i]"""
    x = B.at(d, i, j)
    if j == 2:
        return x
    x = x / K
    if j == 0:
        np_ = npx(B)
        return x * np_.cos(np_.deg2rad(B.at(pos, i, 1)))
    return x


def check_delta(B, d, old, N, go, want, slack=None):
    for j in range(3):
        def one(i, j=j):
            x = B.at(d, i, j)
            if not go:
                return x == 0
            w = want(i, j)
            mm = metres(B, d, old['positions'], i, j)
            ok = B.close(mm, w, 1e-7) if slack is None else And(B.le(w - slack(j), mm + 1e-7 * (1 + abs(w))), B.le(mm, w + slack(j) + 1e-7 * (1 + abs(w))))
            inw = B.at(old['status_codes'], i) == IN
            return And(Implies(Not(inw), x == 0), Implies(inw, ok))
        B.forall('move-%s' % 'xyz'[j], (N,), one)


class Field:
    """contract of a velocity field: some velocity per position and time; remembers where and when it was asked"""
    def __init__(self, B, N, cols=3):
        self.B, self.N, self.asked, self.out, self.cols = B, N, [], [], cols

    def at(self, pos, t, *a, **k):
        B = self.B
        v = B.array('vel%d' % len(self.out), (self.N, self.cols), lo=-3, hi=3)
        self.asked.append((pos.copy(), t))
        self.out.append(v.copy())
        return v


WEIGHTS = dict(Euler=[1.], RK2=[.5, .5], RK4=[1 / 6., 1 / 3., 1 / 3., 1 / 6.])
AHEAD = dict(Euler=[0], RK2=[0, 1], RK4=[0, .5, .5, 1])


def mk_field(which):
    def h(B):
        N = B.dim('N', 1)
        wind = which == 'wind'
        more = dict(windages=B.array('wdg', (N,), lo=0, hi=.1)) if wind else {}
        a = state(B, N, **more)
        sc = make_sc(B, a, None)
        old = {k: v.copy() for k, v in a.items()}
        F = Field(B, N, 3 if wind else B.choice('cols', [2, 3]))
        meth = B.choice('method', ['Euler', 'RK2', 'RK4'])
        s = B.real('scale', lo=-3, hi=3)
        m = (WindMover(wind=F, default_num_method=meth) if wind else CurrentMover(current=F, default_num_method=meth, scale_value=1))
        m.scale_value = s
        act = B.choice('act', [True, False])
        m._active = act
        dt = B.choice('dt', [900, 3600, -900])
        t = datetime.datetime(2020, 7, 1, 12)
        if F.cols == 2 and meth != 'Euler':
            B.assume(False)
        d = m.get_move(sc, dt, t)
        frame(B, sc, old, N)
        if not act:
            check_delta(B, d, old, N, False, None)
            return
        W, A = WEIGHTS[meth], AHEAD[meth]
        B.prove('asked-as-often-as-the-method-needs', len(F.asked) == len(W))
        if len(F.asked) != len(W):
            return
        for k, (p, tk) in enumerate(F.asked):
            B.prove('asked-at-the-right-time', tk == t + datetime.timedelta(seconds=dt * A[k]), [tk, dt, A[k]])
            for j in range(3):
                def at(i, j=j, k=k, p=p):
                    base = B.at(old['positions'], i, j)
                    if k == 0:
                        return B.at(p, i, j) == base
                    stepv = B.at(F.out[k - 1], i, j) * dt * A[k]
                    return B.close(metres(B, p - old['positions'], old['positions'], i, j), stepv, 1e-6)
                B.forall('asked-at-the-right-place', (N,), at)

        def want(i, j):
            if j >= F.cols:
                return 0.
            e = sum(w * B.at(o, i, j) for w, o in zip(W, F.out)) * dt
            if wind and j < 2:
                e = e * B.at(old['windages'], i)
            if wind and j == 2:
                return e
            return e * s
        check_delta(B, d, old, N, True, want)
    return h


def current_unc(B):
    """uncertain current: along- and cross-stream parts scaled by the element's own draws"""
    N = B.dim('N', 1)
    a = state(B, N)
    sc = make_sc(B, a, None, uncertain=True)
    old = {k: v.copy() for k, v in a.items()}
    F = Field(B, N)
    al, cr = B.real('al', lo=0, hi=1), B.real('cr', lo=0, hi=1)
    m = CurrentMover(current=F, default_num_method='Euler', uncertain_along=al, uncertain_cross=cr)
    t = datetime.datetime(2020, 7, 1, 12)
    dt = 900
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dt, t)
    d = m.get_move(sc, dt, t)
    frame(B, sc, old, N)
    V = F.out[0]

    def one(i):
        u, v = B.at(V, i, 0) * dt, B.at(V, i, 1) * dt
        mu, mv = (metres(B, d, old['positions'], i, j) for j in (0, 1))
        L = u * u + v * v
        along, cross = (mu - u) * u + (mv - v) * v, (mu - u) * v - (mv - v) * u
        e = 1e-6 * (1 + L)
        inw = B.at(old['status_codes'], i) == IN
        return Implies(inw, And(B.le(abs(along), al * L + e), B.le(abs(cross), cr * L + e)))
    B.forall('within-along-and-cross-bounds', (N,), one)
    B.forall('others-stay', (N, 3), lambda i, j: Implies(B.at(old['status_codes'], i) != IN, B.at(d, i, j) == 0))


def uncertainty_history(B):
    """bounded: through releases, removals, resets and pauses every uncertain element has its own draw, kept for its duration"""
    n = B.int('n', lo=1, hi=6)
    wind = B.bool('wind')
    dur = B.choice('dur', [1800., 3600., 86400.])
    delay = B.choice('delay', [0., 1800.])

    class F:
        data_start = data_stop = None

        def at(self, pos, t, *a, **k):
            return np.tile((3., 4., 0.), (len(pos), 1))
    kw = dict(uncertain_duration=dur, uncertain_time_delay=delay)
    m = WindMover(wind=F(), **kw) if wind else CurrentMover(current=F(), **kw)
    lst = lambda: m.uncertainty_list if wind else m._uncertainty_list
    np.random.seed(B.int('seed', lo=1, hi=10**6))
    dt = 900
    t0 = t = datetime.datetime(2020, 7, 1, 12)
    m.prepare_for_model_run()
    ids, nxt = list(range(n)), n
    draws = {}
    born = None
    for k in range(B.int('steps', lo=1, hi=7)):
        N = len(ids)
        sc = make_sc(B, dict(positions=np.zeros((N, 3)), status_codes=np.full(N, IN, np.int16), windages=np.full(N, .03), windage_range=np.tile((.01, .04), (N, 1)),
                             windage_persist=np.full(N, -1, np.int32)), None, uncertain=True)
        m.prepare_for_model_step(sc, dt, t)
        d = m.get_move(sc, dt, t)
        B.prove('finite', bool(np.isfinite(d).all()))
        el = k * dt
        if el < delay or N == 0:
            if el < delay:
                B.prove('no-uncertainty-before-its-delay', len(lst()) == 0)
        else:
            L = lst().copy()
            B.prove('one-draw-per-element', len(L) == N, [len(L), N])
            if born is None or el >= born + dur:
                if born is not None:
                    B.prove('redrawn-after-its-duration', not any(np.array_equal(draws.get(i), x) for i, x in zip(ids, L)))
                born = el
            else:
                for i, x in zip(ids, L):
                    if i in draws:
                        B.prove('kept-for-its-duration', np.array_equal(draws[i], x), [i, draws[i], x])
            draws = {i: x.copy() for i, x in zip(ids, L)}
        rm = [i for i in ids if B.choice('rm', [0, 0, 0, 0, 1])]
        if len(rm) == len(ids):
            rm = rm[1:]
        sc['status_codes'][[i in rm for i in ids]] = oil_status.to_be_removed
        m.model_step_is_done(sc)
        ids = [i for i in ids if i not in rm]
        new = B.choice('new', [0, 1, 3])
        ids += list(range(nxt, nxt + new))
        nxt += new
        t = t + datetime.timedelta(seconds=dt)


def compiled_history(B):
    """bounded: the compiled wind mover: through releases, removals and resets every uncertain element keeps its own turn for its duration"""
    from gnome.movers import constant_point_wind_mover
    from gnome.utilities import rand
    n = B.int('n', lo=1, hi=6)
    dur, delay = B.choice('dur', [1800, 3600, 86400]), B.choice('delay', [0, 0, 1800])
    m = constant_point_wind_mover(12., 270., 'm/s')
    m.uncertain_duration, m.uncertain_time_delay = dur / 3600., delay / 3600.
    m.uncertain_speed_scale, m.uncertain_angle_scale = B.choice('ss', [.5, 1.]), .2
    rand.seed(B.int('seed', lo=1, hi=10**6))
    np.random.seed(B.int('seed2', lo=1, hi=10**6))
    dt = 900
    for run in range(B.choice('runs', [1, 2])):
        t = datetime.datetime(2020, 7, 1, 12)
        m.prepare_for_model_run()
        ids, nxt = list(range(n)), n
        turns, born = {}, None
        for k in range(B.int('steps', lo=1, hi=8)):
            N = len(ids)
            sc = make_sc(B, dict(positions=np.zeros((N, 3)), next_positions=np.zeros((N, 3)), status_codes=np.full(N, IN, np.int16), windages=np.full(N, .03),
                                 windage_range=np.tile((.03, .03), (N, 1)), windage_persist=np.full(N, -1, np.int32)), None, uncertain=True)
            m.prepare_for_model_step(sc, dt, t)
            d = np.array(m.get_move(sc, dt, t))
            B.prove('finite', bool(np.isfinite(d).all()))
            el = (k + 1) * dt
            if el < delay:
                B.prove('no-uncertainty-before-its-delay', np.allclose(d[:, 1], 0, atol=1e-9) and np.allclose(d[:, 0], d[0, 0]), [d])
            elif el > delay:
                turn = np.arctan2(d[:, 1], d[:, 0]) / (el - delay) ** .25
                if born is None or el >= born + dur:
                    if born is not None:
                        B.prove('redrawn-after-its-duration', not any(abs(turns[i] - x) < 1e-7 for i, x in zip(ids, turn) if i in turns), [turns, turn])
                    born = el if born is not None or not delay or el != delay + dt else delay
                else:
                    for i, x in zip(ids, turn):
                        if i in turns:
                            B.prove('kept-for-its-duration', abs(turns[i] - x) < 1e-6 * (1 + abs(x)), [k, i, turns[i], x])
                B.prove('each-its-own', len(set(np.round(turn, 9))) == N, [turn])
                turns = dict(zip(ids, turn))
            elif born is None:
                born = el
            rm = [i for i in ids if B.choice('rm', [0, 0, 0, 0, 1])]
            if len(rm) == len(ids):
                rm = rm[1:]
            sc['status_codes'][[i in rm for i in ids]] = oil_status.to_be_removed
            m.model_step_is_done(sc)
            ids = [i for i in ids if i not in rm]
            new = B.choice('new', [0, 1, 3])
            ids += list(range(nxt, nxt + new))
            nxt += new
            t = t + datetime.timedelta(seconds=dt)


def compiled(B):
    """bounded: the compiled movers: wind drift, diffusion, only in the water, only while active"""
    from gnome.movers import constant_point_wind_mover, RandomMover, RandomMover3D, RiseVelocityMover
    n = B.int('n', lo=1, hi=12)
    lat = B.real('lat', lo=-80, hi=80)
    kind = B.choice('kind', ['wind', 'random', 'rise', 'random3d'])
    st = np.array([B.choice('st', ST) for _ in range(n)], np.int16)
    pos = np.array([(B.real('lon', lo=-179, hi=179), lat, B.choice('z', [0., 0., 3., 40.])) for _ in range(n)])
    wdg = np.array([B.real('wd', lo=0, hi=.05) for _ in range(n)])
    rv = np.array([B.choice('rv', [0., .001, .05, 1., -.01]) for _ in range(n)])
    from gnome.spill_container import SpillContainer
    sc = make_sc(B, dict(positions=pos.copy(), next_positions=pos.copy(), status_codes=st.copy(), windages=wdg.copy(), windage_range=np.c_[wdg, wdg],
                         windage_persist=np.full(n, -1, np.int32), rise_vel=rv.copy()), None)
    dt = B.choice('dt', [60, 900, 3600, -900])
    if kind in ('rise', 'random3d'):
        dt = abs(dt)            # these two do not run backward (unsigned step)
    t = datetime.datetime(2020, 7, 1, 12)
    on = B.choice('on', [True, True, True, False])
    sp, wd = B.real('sp', lo=0, hi=30), B.real('wdir', lo=0, hi=360)
    D = B.choice('D', [1e3, 1e5, 1e6])
    if kind == 'wind':
        m = constant_point_wind_mover(sp, wd, 'm/s')
    elif kind == 'random':
        m = RandomMover(diffusion_coef=D)
    elif kind == 'rise':
        m = RiseVelocityMover()
    else:
        m = RandomMover3D(surface_is_allowed=B.bool('surf'))
    m.on = on
    if on:
        m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dt, t)
    d = np.array(m.get_move(sc, dt, t), copy=True)
    keep = dict(positions=pos, status_codes=st, rise_vel=rv)
    B.prove('elements-untouched', all(np.array_equal(sc[k], v) for k, v in keep.items()))
    B.prove('finite', bool(np.isfinite(d).all()) and d.shape == (n, 3))
    inw = st == IN
    B.prove('only-in-the-water', not d[~inw].any(), [st, d])
    if not on:
        B.prove('off-means-still', not d.any())
        return
    c = np.cos(np.radians(lat))
    mx, my = d[:, 0] / K * c, d[:, 1] / K
    if kind == 'wind':
        s = inw & (pos[:, 2] == 0)
        ux, uy = -sp * np.sin(np.radians(wd)), -sp * np.cos(np.radians(wd))
        B.prove('drifts-downwind', np.allclose(mx[s], wdg[s] * ux * dt, rtol=2e-3, atol=1e-3) and np.allclose(my[s], wdg[s] * uy * dt, rtol=2e-3, atol=1e-3),
                [mx, wdg * ux * dt, my, wdg * uy * dt])
        B.prove('no-vertical-drift', not d[:, 2].any())
        B.prove('no-wind-below-the-surface', not d[inw & (pos[:, 2] > 0)].any())
    elif kind == 'random':
        r = (6 * D / 1e4 * abs(dt)) ** .5
        B.prove('diffusion-bounded', (abs(mx) <= r * 1.01 + 1e-6).all() and (abs(my) <= r * 1.01 + 1e-6).all(), [mx, my, r])
        B.prove('no-vertical-diffusion', not d[:, 2].any())
    elif kind == 'rise':
        B.prove('no-horizontal-move', not d[:, :2].any())
        zz = pos[:, 2] + d[:, 2]
        deep = inw & (pos[:, 2] > 0)
        want = pos[:, 2] - rv * dt
        B.prove('rises-with-its-velocity', np.allclose(zz[deep], want[deep], atol=1e-9), [zz, want])


def compiled_wind(B):
    """WindMover_c::get_move: an element at the surface in the water drifts by its windage times the wind times the step, converted at its own latitude"""
    from . import c12
    from pyvc.cint import Struct, val
    N = B.dim('N', 1)
    x, y, z, st = c12.world_arrays(B, N)
    wd = B.array('wd', (N,), lo=0, hi=.1)
    dt = B.int('dt', lo=1, hi=86400) * B.choice('sgn', [1, -1])
    u, v = B.real('u', lo=-50, hi=50), B.real('v', lo=-50, hi=50)
    kind = B.choice('kind', [1, 2])

    def contract(i, dx, dy, dz, ratio, uu, vv):
        w = And(B.at(st, i) == IN, B.at(z, i) <= 0)
        B.prove('no-vertical-drift', B.close(dz, 0., 0))
        B.prove('only-at-the-surface-in-the-water', Or(w, And(B.close(dx, 0., 0), B.close(dy, 0., 0))), [dx, dy])
        for a, b in ((dx * ratio, uu), (dy, vv)):
            e = b * B.at(wd, i) * dt * K
            B.prove('drifts-with-its-windage', Implies(w, And(a - e <= 1e-6 * abs(e) + 1e-9, a - e >= -1e-6 * abs(e) - 1e-9)), [a, e])
    if B.symbolic:
        I = B.int('I', lo=0)
        B.assume(I < N.n)
        rt = B.real('ratio', lo=.05, hi=1)
        lat, asked = [], []

        def ratio(la):
            lat.append(val(la))
            return rt
        uu, vv = B.real('uu', lo=-50, hi=50), B.real('vv', lo=-50, hi=50)

        def unc(si, li, vel):
            asked.append(val(li))
            s = vel.get()
            B.prove('uncertainty-around-the-wind', And(val(s.u) == u, val(s.v) == v))
            s.ref('u').set(uu)
            s.ref('v').set(vv)
            return 0
        this = c12._This(current_time_value=Struct(u=u, v=v))
        dx, dy, dz = c12.run_sym(B, 'WindMover_c.cpp', 'WindMover_c', this, dict(arrays=(x, y, z, st), more=dict(wd=wd), time=B.int('t', lo=0), dt=dt, kind=kind,
                                 order=['n', 'time', 'step', 'ref', 'delta', 'wd', 'st', 'kind', 'sid']), {'LongToLatRatio3': ratio, 'AddUncertainty': unc}, N, I)
        contract(I, dx, dy, dz, rt, *((uu, vv) if kind == 2 else (u, v)))
        B.prove('uncertain-elements-only', kind == 2 or not asked)
        for i in asked:
            B.prove('own-draw', i == I)
        for la in lat:
            B.prove('own-latitude', And(la <= y[I] * 1000000 + 1, la >= y[I] * 1000000 - 1))
        return
    if kind == 2:
        return
    from gnome.movers import constant_point_wind_mover
    from gnome.basic_types import spill_type
    n = len(x)
    z = np.where(np.arange(n) % 3 == 0, z, 0.)
    sc = c12.fake_sc(n, x, y, z, st, windage_range=np.c_[wd, wd], windage_persist=np.full(n, -1, np.int32))
    sc['windages'][:] = wd
    m = constant_point_wind_mover(np.hypot(u, v), np.degrees(np.arctan2(-u, -v)) % 360, 'm/s')
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dt, datetime.datetime(2020, 7, 1))
    d = m.get_move(sc, dt, datetime.datetime(2020, 7, 1))
    for i in range(n):
        w = st[i] == IN and z[i] <= 0
        B.prove('only-at-the-surface-in-the-water', w or not d[i].any())
        if w:
            e = np.array((u, v)) * wd[i] * dt * K
            B.prove('drifts-with-its-windage', np.allclose((d[i, 0] * np.cos(np.radians(y[i])), d[i, 1]), e, rtol=2e-3, atol=1e-7), [d[i], e])


def compiled_grid(B):
    """GridCurrentMover_c::get_move: an element in the water moves by the scaled current at its place and time (Euler), by the mean of both
    ends of the step (RK2) or by the four-stage mean (RK4), each stage asked at the place the stage before leads to and with its data loaded"""
    if not B.symbolic:
        return
    from . import c12
    from pyvc.cint import Struct, val, constants
    meth = B.choice('method', ['EULER', 'TRAPEZOID', 'RK4'])
    nm = constants('GridCurrentMover_c.h', 'EULER', 'TRAPEZOID', 'RK4')
    N = B.dim('N', 1)
    x, y, z, st = c12.world_arrays(B, N)
    dt = B.int('hdt', lo=1, hi=43200) * 2 * B.choice('sgn', [1, -1])
    t = B.int('t', lo=10**6, hi=2**31)
    scale = B.real('scale', lo=-10, hi=10)
    kind = B.choice('kind', [1, 2])
    ready = B.choice('ready', [1, 0])
    I = B.int('I', lo=0)
    B.assume(I < N.n)
    rt = B.real('ratio', lo=.05, hi=1)
    lat, loaded, asked, used, own = [], [t if ready else None], [], [], []

    def ratio(la):
        lat.append(val(la))
        return rt

    def interval(msg, when):
        loaded[0] = val(when)
        return 0

    def field(when, p):
        B.prove('data-of-that-time-loaded', loaded[0] is not None and val(when) == loaded[0])
        p = p.get() if hasattr(p, 'get') else p
        k = len(asked)
        u, v = B.real('u%d' % k, lo=-10, hi=10), B.real('v%d' % k, lo=-10, hi=10)
        asked.append((val(when), p.p.pLong, p.p.pLat, p.z))
        used.append([u * scale, v * scale])
        return Struct(u=u, v=v)

    def unc(si, li, vel, *a):
        r = vel.get()
        k = len(used) - 1
        B.prove('uncertainty-around-the-current', And(val(li) == I, val(si) == 0, B.close(val(r.u), used[k][0], 1e-9), B.close(val(r.v), used[k][1], 1e-9)))
        own.append(k)
        used[k] = [B.real('uu%d' % k, lo=-100, hi=100), B.real('vv%d' % k, lo=-100, hi=100)]
        r.ref('u').set(used[k][0])
        r.ref('v').set(used[k][1])
        return 0
    this = c12._This(num_method=nm[meth], fIsOptimizedForStep=ready, fCurScale=scale, timeGrid=Struct())
    dx, dy, dz = c12.run_sym(B, 'GridCurrentMover_c.cpp', 'GridCurrentMover_c', this, dict(arrays=(x, y, z, st), time=t, dt=dt, kind=kind, order=['n', 'time', 'step', 'ref', 'delta', 'st', 'kind', 'sid']),
                             {'LongToLatRatio3': ratio, 'AddUncertainty': unc, 'SetInterval': interval, 'GetScaledPatValue': field}, N, I, extra=nm)
    B.prove('no-vertical-move', B.close(dz, 0., 0))
    w = B.at(st, I) == IN
    if not asked:
        B.prove('only-in-the-water', And(Not(w), B.close(dx, 0., 0), B.close(dy, 0., 0)))
        return
    B.prove('only-in-the-water', w)
    B.prove('uncertain-elements-only', own == (list(range(len(asked))) if kind == 2 else []))
    wt = {'EULER': [1.], 'TRAPEZOID': [.5, .5], 'RK4': [1 / 6., 1 / 3., 1 / 3., 1 / 6.]}[meth]
    fr = {'EULER': [0], 'TRAPEZOID': [0, 1], 'RK4': [0, .5, .5, 1]}[meth]
    B.prove('stages', len(asked) == len(wt))
    if len(asked) != len(wt):
        return
    for k, (when, lo, la, zz) in enumerate(asked):
        B.prove('stage-time', when == t + (dt // 2 if fr[k] == .5 else fr[k] * dt))
        px, py = B.at(x, I), B.at(y, I)
        if k and fr[k]:
            px = px + fr[k] * used[k - 1][0] * dt / 111120.00024 / rt
            py = py + fr[k] * used[k - 1][1] * dt / 111120.00024
        B.prove('stage-place', And(B.close(lo / 1000000, px, 1e-6), B.close(la / 1000000, py, 1e-6), B.close(zz, B.at(z, I), 0)))
    for j, a in ((0, dx * rt), (1, dy)):
        e = sum(f * v[j] for f, v in zip(wt, used)) * dt * K
        B.prove('moved-by-the-current', And(a - e <= 1e-6 * abs(e) + 1e-6, a - e >= -1e-6 * abs(e) - 1e-6), [a, e])
    for la in lat:
        B.prove('own-latitude', And(la <= y[I] * 1000000 + 1, la >= y[I] * 1000000 - 1))


def gridded(B):
    """bounded: the compiled mover of a gridded current file: in every numerical method a space-constant current, interpolated in time
    (or extended beyond the file where that is allowed) and scaled, moves exactly the elements in the water by velocity x time"""
    from . import gridfile
    from gnome.movers import c_GridCurrentMover
    t0 = datetime.datetime(2021, 3, 5)
    hours = [0] + [int(x) for x in np.cumsum([B.choice('gap', [1, 3, 10]) for k in range(B.int('times', lo=1, hi=3))])]
    u = [B.real('u', lo=-1, hi=1) for _ in hours]
    v = [B.real('v', lo=-1, hi=1) for _ in hours]
    dt = B.choice('dt', [900, 600, 1800, -900])
    off = B.choice('offset', [0, 0, 2, -3])
    sc_ = B.choice('scale', [1., 1., .5, -2.])
    meth = B.choice('method', ['Euler', 'Euler', 'RK2', 'RK4'])
    ext = B.choice('extend', [False, True])
    last = hours[-1] * 3600
    x = B.choice('when', ['in', 'in', 'in'] + (['before', 'after'] if ext else []))
    el = {'in': B.int('el', lo=0, hi=last), 'before': -7200, 'after': last + 7200}[x]
    if x == 'in' and not ext:
        B.assume(0 <= el + dt <= last)
    t = t0 + datetime.timedelta(hours=off, seconds=el)
    n = B.int('n', lo=1, hi=5)
    pos = np.array([(B.real('lon', lo=-1.2, hi=1.2), B.real('lat', lo=-1.2, hi=1.2), 0.) for _ in range(n)])
    st = np.array([B.choice('st', [IN, IN, IN] + ST) for _ in range(n)], np.int16)
    with gridfile.Scratch() as d:
        m = c_GridCurrentMover(gridfile.write(d, t0, hours, u, v), extrapolate=ext, time_offset=off, current_scale=sc_, num_method=meth)
        B.prove('reads-back', And(m.extrapolate == ext, m.time_offset == off, m.current_scale == sc_, m.num_method == meth))
        sc = make_sc(B, dict(positions=pos.copy(), next_positions=pos.copy(), status_codes=st.copy()), None)
        m.prepare_for_model_run()
        m.prepare_for_model_step(sc, dt, t)
        got = np.array(m.get_move(sc, dt, t))
        m.model_step_is_done(sc)
        m.post_model_run()
    at = lambda a, e: float(np.interp(e, np.array(hours) * 3600., np.float32(a)))
    es = {'Euler': [el], 'RK2': [el, el + dt], 'RK4': [el, el + dt // 2, el + dt]}[meth]
    w = {'Euler': [1.], 'RK2': [.5, .5], 'RK4': [1 / 6., 2 / 3., 1 / 6.]}[meth]
    B.prove('untouched', And(bool((np.asarray(sc['positions']) == pos).all()), bool((np.asarray(sc['status_codes']) == st).all())))
    for i in range(n):
        if st[i] != IN:
            B.prove('only-in-the-water', bool((got[i] == 0).all()), [got[i], st[i]])
            continue
        for j, a in ((0, u), (1, v)):
            mm = got[i, j] / K * (np.cos(np.deg2rad(pos[i, 1])) if j == 0 else 1.)
            want = sum(f * at(a, e) for f, e in zip(w, es)) * sc_ * dt
            B.prove('moved-by-the-current', abs(mm - want) < 1e-2 + 1e-3 * abs(want), [meth, i, j, mm, want])
        B.prove('no-vertical-move', got[i, 2] == 0)


def diffusion(B):
    """bounded: the spread of many diffusing elements: no drift, variance 2*D*t per axis, axes uncorrelated"""
    from gnome.movers import RandomMover
    n = 20000
    D = B.choice('D', [1e3, 1e5, 1e6])
    lat = B.choice('lat', [0., 45., -70.])
    dt = B.choice('dt', [60, 900, 3600])
    unc = B.bool('unc')
    f = B.choice('uf', [2., 1., 3.])
    sc = make_sc(B, dict(positions=np.tile((5., lat, 0.), (n, 1)), next_positions=np.zeros((n, 3)), status_codes=np.full(n, IN, np.int16)), None, uncertain=unc)
    m = RandomMover(diffusion_coef=D, uncertain_factor=f)
    from gnome.utilities import rand
    rand.seed(B.int('seed', lo=1, hi=10**6))
    m.prepare_for_model_run()
    t = datetime.datetime(2020, 7, 1, 12)
    m.prepare_for_model_step(sc, dt, t)
    d = np.array(m.get_move(sc, dt, t))
    r2 = 6 * D / 1e4 * dt * (f if unc else 1)
    B.prove('first-step-in-a-circle', bool(((d[:, 0] / K * np.cos(np.radians(lat))) ** 2 + (d[:, 1] / K) ** 2 <= r2 * 1.01).all()))
    m.model_step_is_done(sc)
    m.prepare_for_model_step(sc, dt, t)
    d = np.array(m.get_move(sc, dt, t))
    x, y = d[:, 0] / K * np.cos(np.radians(lat)), d[:, 1] / K
    s2 = 2 * D / 1e4 * dt * (f if unc else 1)
    for v in (x, y):
        B.prove('no-drift', abs(v.mean()) < 6 * (s2 / n) ** .5, [v.mean(), s2])
        B.prove('variance', abs(v.var() / s2 - 1) < .05, [v.var(), s2])
    B.prove('axes-uncorrelated', abs(np.mean(x * y)) < 6 * s2 / n ** .5)


def whole_run(B):
    """bounded: whole runs on open water: every element's path is the sum of its movers' moves; stranded ones do not move"""
    from . import modelgen as M
    w = M.build(B, weather=False, land=False, backward=True)
    log = {}
    for m in w.model.movers:
        def wrap(real):
            def get_move(sc, dt, t):
                d = real(sc, dt, t)
                e = log.setdefault(id(sc), [sc['positions'].copy(), np.zeros_like(sc['positions']), sc['id'].copy()])
                e[1] = e[1] + d
                return d
            return get_move
        B.patch(m, 'get_move', wrap(m.get_move))
    hist = []

    def after(m):
        hist.append({k: v for k, v in log.items()})
        log.clear()
    for k, step in enumerate(M.run(w, after_step=after)):
        for o, sc in zip(step, w.model.spills.items()):
            if id(sc) not in hist[k]:
                continue
            p, d, ids = hist[k][id(sc)]
            want = p + d
            want[:, 2] = np.maximum(want[:, 2], 0)
            pos = {int(i): x for i, x in zip(o['id'], o['positions'])}
            for i, x in zip(ids, want):
                if int(i) in pos:
                    B.prove('path-is-the-sum-of-moves', np.allclose(pos[int(i)], x, atol=1e-12), [i, pos[int(i)], x])


def compiled_drop(B):
    """WindMover_c / CurrentMover_c::ReallocateUncertainty, any number of elements: the draws of the elements that stay are
    kept, in order, and those of the removed ones dropped"""
    if not B.symbolic:
        return
    from pyvc.cint import Interp, Struct, Arr, Cell, Invariant, constants
    cls, lst, szs, flds = B.choice('class', [('WindMover_c', 'fWindUncertaintyList', 'fLESetSizes', ('randCos', 'randSin')),
                                             ('CurrentMover_c', 'fUncertaintyListH', 'fLESetSizesH', ('downStream', 'crossStream'))])
    GONE = constants('', 'OILSTAT_TO_BE_REMOVED')['OILSTAT_TO_BE_REMOVED']
    N = B.dim('N', 1)
    n = N.n
    st = B.array('status', (N,), dtype=np.int64, lo=0, hi=40)
    old = B.array('old', (N, 2))
    cnt = B.array('cnt', (N,), dtype=np.int64)           # how many elements that stay come before an element
    K, J = B.int('K', lo=0), B.int('J', lo=0)            # an arbitrary element that stays; an arbitrary slot
    B.assume(And(K < n, B.at(st, K) != GONE))

    def counts(i):
        # the count, at the indexes used
        c = B.at(cnt, i)
        B.assume(And(Implies(i == 0, c == 0), c >= 0, c <= i))
        B.assume(Implies(i >= 0, B.at(cnt, i + 1) == c + Ite(B.at(st, i) != GONE, 1, 0)))
        for a in (K,):
            B.assume(And(Implies(a < i, B.at(cnt, a) + 1 <= c), Implies(i <= a, c <= B.at(cnt, a)), Implies(a == i, B.at(cnt, a) == c)))
    for i in (0, K, n):
        counts(i)
    mem = [old, []]                                       # what the list held, and what was written since

    def read(i):
        v = [B.at(mem[0], i, k) for k in (0, 1)]
        for j, w in mem[1]:
            v = [Ite(i == j, w.f[flds[k]], v[k]) for k in (0, 1)]
        B.prove('reads-and-writes-inside-the-list', And(i >= 0, i < n))
        return Struct(**dict(zip(flds, v)))

    def write(i, v):
        B.prove('reads-and-writes-inside-the-list', And(i >= 0, i < n))
        mem[1].append((i, v.copy()))

    def held(i):
        v = [B.at(mem[0], i, k) for k in (0, 1)]
        for j, w in mem[1]:
            v = [Ite(i == j, w.f[flds[k]], v[k]) for k in (0, 1)]
        return v

    def same(i, j):
        a = held(i)
        return And(*[a[k] == B.at(old, j, k) for k in (0, 1)])

    assuming = [False]

    def inv(L):
        i = L.i
        counts(i)
        # proved for an arbitrary slot J, therefore true of every slot: used for this one and the next
        slots = (J, i, i + 1) if assuming[0] else (J,)
        assuming[0] = False
        return [('range', And(i >= 0, i <= n)), ('count', L.numrec == B.at(cnt, i)), ('kept-in-order', Implies(K < i, same(B.at(cnt, K), K)))] + [
            ('rest-untouched', Implies(And(j >= i, j < n), same(j, j))) for j in slots]

    def fresh(nm):
        if nm == 'numrec':
            mem[0], mem[1], assuming[0] = B.array('mem', (N, 2)), [], True
        return B.int(nm)
    rest = Invariant('drop', inv, fresh, variant=lambda L: n - L.i)
    arr, sizes = Cell(Arr(read, write)), Cell(Arr(lambda i: 0))
    this = Struct(**{lst: arr, szs: sizes})
    this.cls = cls
    size = [None]
    gone = []
    rec = constants(cls + '.h', 'sizeof(%s)' % ('LEWindUncertainRec' if cls[0] == 'W' else 'LEUncertainRec'))
    rec = list(rec.values())[0]

    def get_size(h):
        return rec * n if h is arr else 8

    def set_size(h, s):
        size[0] = s
        return 0
    err = Interp(B, cls + '.cpp', this=this, loops={0: rest}, consts=dict(OILSTAT_TO_BE_REMOVED=GONE), contracts={'_GetHandleSize': get_size, '_SetHandleSize': set_size, 'DisposeUncertainty': lambda *a: gone.append(1)}).call(
        cls + '::ReallocateUncertainty', n, Arr(lambda i: B.at(st, i)))
    B.prove('no-error', err == 0)
    B.prove('list-of-those-that-stay', Not(B.at(cnt, n) == 0) if not gone else B.at(cnt, n) == 0)
    if gone:
        return
    B.prove('one-draw-each', (size[0] == rec * B.at(cnt, n)) if size[0] is not None else B.at(cnt, n) == n)
    B.prove('keeps-its-draw', same(B.at(cnt, K), K))


HARNESSES = [
    H('compose', compose, functions=['Model.move_elements']),
    H('active', active, functions=['Process.prepare_for_model_step']),
    H('simple', simple, functions=['SimpleMover.get_move', 'FlatEarthProjection.meters_to_lonlat']),
    H('current', mk_field('current'), functions=['CurrentMover.get_move', 'PyMover.get_delta_Euler', 'PyMover.get_delta_RK2', 'PyMover.get_delta_RK4']),
    H('wind', mk_field('wind'), functions=['WindMover.get_move', 'PyMover.get_delta_Euler', 'PyMover.get_delta_RK2', 'PyMover.get_delta_RK4']),
    H('current_unc', current_unc, functions=['CurrentMover.get_move', 'CurrentMover._add_uncertainty', 'CurrentMover._update_uncertainty']),
    H('uncertainty_history', uncertainty_history, sym=False, conc=150, functions=['CurrentMover._update_uncertainty', 'WindMover.update_uncertainty', 'model_step_is_done']),
    H('compiled_history', compiled_history, sym=False, conc=200, functions=['WindMover_c::UpdateUncertainty', 'WindMover_c::ReallocateUncertainty', 'WindMover_c::UpdateUncertaintyValues']),
    H('compiled_drop', compiled_drop, conc=1, functions=['WindMover_c::ReallocateUncertainty', 'CurrentMover_c::ReallocateUncertainty']),
    H('compiled', compiled, sym=False, conc=400, functions=['PointWindMover.get_move', 'RandomMover.get_move', 'RandomMover3D.get_move', 'RiseVelocityMover.get_move']),
    H('compiled_wind', compiled_wind, functions=['WindMover_c::get_move / GetMove']),
    H('compiled_grid', compiled_grid, conc=1, functions=['GridCurrentMover_c::get_move / GetMove']),
    H('gridded', gridded, sym=False, conc=200, conc_budget=30, functions=['c_GridCurrentMover.get_move', 'GridCurrentMover_c::GetMove', 'TimeGridVelRect_c::GetScaledPatValue', 'TimeGridVel_c::SetInterval']),
    H('diffusion', diffusion, sym=False, conc=20, functions=['RandomMover.get_move']),
    H('whole_run', whole_run, sym=False, conc=200, conc_budget=40, functions=['Model.move_elements']),
]
ASSUMPTIONS = ['velocity fields (environment objects) enter as contracts: some velocity at every position and time',
               'latitudes within +-80 degrees']
