"""C23 uncertainty: uncertain elements scatter around the forecast by their stated scales and never change the forecast"""
import datetime
from .common import *
from gnome.basic_types import oil_status
from gnome.movers import SimpleMover, CurrentMover, WindMover

IN = oil_status.in_water
K = 8.9992801e-06
T = datetime.datetime(2020, 7, 1, 12)


def wind_off(B):
    """with both scales zero the uncertain wind move is the forecast's; calm excepted (light winds diffuse)"""
    N = B.dim('N', 1)
    m = WindMover(wind=object(), uncertain_speed_scale=0., uncertain_angle_scale=0.)
    m.uncertainty_list = B.array('draws', (N, 2), lo=-4, hi=4)
    m.sigma2 = 0.
    m.sigma_theta = 0.
    m.uncertain_diffusion = B.real('diff', lo=0, hi=10)
    dt = 1800 * B.choice('sgn', [1, -1])
    d = B.array('d', (N, 3), lo=-60000, hi=60000)
    d0 = d.copy()
    B.assume_forall((N,), lambda i: B.at(d0, i, 0) ** 2 + B.at(d0, i, 1) ** 2 >= 1800. ** 2)
    if B.symbolic:
        from pyvc.loops import ElementLoop
        pre = []

        def arrays(loc):
            pre.append(loc['deltas'].copy())
            return [loc['deltas'][:, 0], loc['deltas'][:, 1]]

        def post(loc, ar, j):
            return Or(Sym(loc['norm'].at((j,))) < 1, And(Sym(ar[0].at((j,))) == B.at(pre[0], j, 0), Sym(ar[1].at((j,))) == B.at(pre[0], j, 1)))
        B.loop('add_uncertainty', ElementLoop('light-winds', arrays, post))
    got = m.add_uncertainty(d, dt)
    B.forall('unchanged-without-scales', (N, 3), lambda i, j: B.close(B.at(got, i, j), B.at(d0, i, j), 1e-6))


def wind_before(B):
    """before its delay has passed an uncertain wind or current move is the forecast's"""
    N = B.dim('N', 1)
    wind = B.choice('wind', [True, False])
    n0 = 0
    delay = B.real('delay', lo=1, hi=86400)
    el = B.real('el', lo=0, hi=86400)
    B.assume(el < delay)
    d = B.array('d', (N, 3), lo=-60000, hi=60000)
    d0 = d.copy()
    if wind:
        m = WindMover(wind=object(), uncertain_time_delay=delay)
        m.update_uncertainty(N, el)
        got = m.add_uncertainty(d, 900)
    else:
        m = CurrentMover(current=object(), uncertain_time_delay=delay)
        m._update_uncertainty(N, el)
        got = m._add_uncertainty(d)
    B.forall('no-uncertainty-before-its-delay', (N, 3), lambda i, j: B.at(got, i, j) == B.at(d0, i, j))


def wind_scales(B):
    """the speed and direction scales of an uncertain wind grow only with the time since its delay passed, in proportion to the scales given, and start at nothing"""
    N = B.dim('N', 1)
    el, late, sh = B.real('el', lo=0, hi=10**6), B.real('late', lo=0, hi=10**6), B.real('sh', lo=0, hi=10**6)
    B.assume(el >= late)
    a, b = B.real('a', lo=0, hi=5), B.real('b', lo=0, hi=5)

    def scales(e, d, a=a, b=b):
        m = WindMover(wind=object(), uncertain_time_delay=d, uncertain_speed_scale=a, uncertain_angle_scale=b)
        m.update_uncertainty_values = lambda *x, **k: None
        m.allocate_uncertainty = lambda *x, **k: None
        m.uncertainty_list = [0] * 3
        m.update_uncertainty(3, e)
        return m.sigma2, m.sigma_theta
    s, t = scales(el, late)
    s2, t2 = scales(el + sh, late + sh)
    B.prove('since-its-delay', And(B.close(s, s2, 1e-6), B.close(t, t2, 1e-6)), [s, s2, t, t2])
    B.prove('not-negative', And(s >= 0, t >= 0))
    B.prove('fourth-power', B.close(t * t * t * t, b ** 4 * 2.73 ** 4 * (el - late), 1e-6 * (1 + b ** 4 * el)), [t, b, el, late])
    s3, t3 = scales(el, late, 2 * a, 3 * b)
    B.prove('in-proportion', And(B.close(s3, 4 * s, 1e-6 * (1 + s)), B.close(t3, 3 * t, 1e-6 * (1 + t))), [s, s3, t, t3])


def current_sum(B):
    """an uncertain current is the forecast's plus its along part times it and its cross part times it turned by a right angle"""
    N = B.dim('N', 1)
    m = CurrentMover(current=object())
    a = B.array('draws', (N, 2), lo=-1, hi=1)
    m._uncertainty_list = a
    d = B.array('d', (N, 3), lo=-60000, hi=60000)
    d0, a0 = d.copy(), a.copy()
    got = m._add_uncertainty(d)

    def one(i):
        u, v, al, be = B.at(d0, i, 0), B.at(d0, i, 1), B.at(a0, i, 0), B.at(a0, i, 1)
        x, y = B.at(got, i, 0) - u, B.at(got, i, 1) - v
        L = u * u + v * v
        e = 1e-6 * (1 + L)
        return And(B.le(abs(x * u + y * v - al * L), e), B.le(abs(abs(x * v - y * u) - abs(be) * L), e), B.at(got, i, 2) == B.at(d0, i, 2))
    B.forall('along-and-cross-parts', (N,), one)
    B.forall('draws-kept', (N, 2), lambda i, j: B.at(a, i, j) == B.at(a0, i, j))


def compiled_wind(B):
    """WindMover_c::AddUncertainty: without scales the wind is the forecast's; light winds get a bounded diffusion; otherwise the wind is turned by its own draw"""
    if not B.symbolic:
        return
    from pyvc.cint import Interp, Struct, Arr, Cell
    from pyvc import cint
    u, v = B.real('u', lo=-60, hi=60), B.real('v', lo=-60, hi=60)
    diff = B.real('diff', lo=0, hi=10)
    mode = B.choice('mode', ['none', 'off', 'on'])
    sig, sth = (0., 0.) if mode == 'off' else (B.real('sig', lo=0, hi=50), B.real('sth', lo=0, hi=30))
    rc, rs = B.real('rc', lo=-4, hi=4), B.real('rs', lo=-4, hi=4)
    I = B.int('I', lo=0)
    asked = []

    def draw(i):
        asked.append(i)
        return Struct(randCos=rc, randSin=rs)
    this = Struct(fSigma2=sig, fSigmaTheta=sth, fUncertaintyDiffusion=diff, fWindUncertaintyList=Cell(Arr(draw)) if mode != 'none' else 0,
                  fLESetSizes=Cell(Arr(lambda i: 0)) if mode != 'none' else 0)
    this.cls = 'WindMover_c'
    R = []

    def rnd(lo, hi):
        B.prove('drawn-on-both-sides', And(cint.val(lo) == -1, cint.val(hi) == 1))
        r = B.real('rand', lo=-1, hi=1)
        R.append(r)
        return r
    angles = []
    co, si = (1., 0.) if mode == 'off' else (B.real('cos', lo=-1, hi=1), B.real('sin', lo=-1, hi=1))

    def trig(r):
        def f(t):
            angles.append(cint.val(t))
            return r
        return f
    vel = Cell(Struct(u=u, v=v))
    Interp(B, 'WindMover_c.cpp', contracts={'GetRandomFloat': rnd, 'cos': trig(co), 'sin': trig(si)}, this=this).call('WindMover_c::AddUncertainty', 0, I, vel)
    x, y = (vel.get().f[k] for k in 'uv')
    n2 = u * u + v * v
    if mode == 'none':
        B.prove('forecast-without-uncertainty', And(x == u, y == v))
        return
    calm = n2 < 1
    for i in asked:
        B.prove('own-draw', i == I)
    if R:
        B.prove('light-winds-diffuse', And(calm, len(R) == 2, x - u <= diff, u - x <= diff, y - v <= diff, v - y <= diff))
        B.prove('diffusion-both-axes-apart', And(x == u + diff * R[0], y == v + diff * R[1]))
    elif mode == 'off':
        B.prove('no-angle-without-scale', And(*[t == 0 for t in angles]))
        B.prove('forecast-without-scales', And(Not(calm), B.close(x, u, 1e-6), B.close(y, v, 1e-6)))
    else:
        B.prove('not-in-light-winds', Not(calm))
        B.prove('angle-of-its-draw', And(*[And(t - rs * sth * 3.14159265359 / 180 <= 1e-9, t - rs * sth * 3.14159265359 / 180 >= -1e-9) for t in angles]))
        B.prove('turned-by-its-angle', (u * y - v * x) * co == (u * x + v * y) * si)


def compiled_step(B):
    """WindMover_c::PrepareForModelStep: the forecast never updates the uncertainty; the diffusion velocity gives the stated diffusion over a step"""
    if not B.symbolic:
        return
    from pyvc.cint import Interp, Struct, Arr, val
    this = Struct(bIsFirstStep=B.choice('first', [1, 0]), fModelStartTime=B.int('t0', lo=0, hi=2 ** 31), fUncertaintyDiffusion=-1., current_time_value=Struct(u=0., v=0.))
    this.cls = 'WindMover_c'
    t, dt = B.int('t', lo=0, hi=2 ** 31), B.int('dt', lo=1, hi=86400)
    unc = B.choice('unc', [1, 0])
    asked = []

    def upd(el, n, sizes):
        asked.append(val(el))
        return 0
    first, t0 = this.f['bIsFirstStep'], this.f['fModelStartTime']
    gt = []

    def gtv(time, out):
        gt.append(val(time))
        return 0
    Interp(B, 'WindMover_c.cpp', contracts={'UpdateUncertainty': upd, 'GetTimeValue': gtv}, this=this).call('WindMover_c::PrepareForModelStep', t, dt, unc, 1, Arr(lambda i: 1))
    B.prove('wind-of-this-time', len(gt) == 1 and gt[0] == t)
    B.prove('start-remembered', this.f['fModelStartTime'] == (t if first else t0))
    if not unc:
        B.prove('forecast-does-not-draw', And(not asked, this.f['fUncertaintyDiffusion'] == -1.))
        return
    e = t + dt - this.f['fModelStartTime']
    B.prove('elapsed-since-the-start', And(len(asked) == 1, asked[0] == abs(e)))
    d = this.f['fUncertaintyDiffusion']
    B.prove('diffusion-velocity', And(d >= 0, d * d * dt <= 600.0001, d * d * dt >= 599.9999))


def compiled_update(B):
    """WindMover_c::UpdateUncertainty, any number of elements: no draws before the delay, existing draws kept for their duration, new
    elements get their own within the angle bound, everything is drawn anew only when it has to be; scales grow since the delay"""
    if not B.symbolic:
        return
    from pyvc.cint import Interp, Struct, Arr, Cell, EachElement, val, constants
    el, late, was, dur = (B.int(x, lo=0, hi=2 ** 31) for x in ('el', 'late', 'was', 'dur'))
    n, m, I = B.int('n', lo=0, hi=10**7), B.int('m', lo=0, hi=10**7), B.int('I', lo=0, hi=10**7)
    have = B.choice('have', [True, False])
    sp, an = B.real('sp', lo=0, hi=10), B.real('an', lo=0, hi=10)
    th0, big = B.real('th0', lo=0, hi=100), B.real('big', lo=1, hi=100)
    rec = constants('WindMover_c.h', 'sizeof(LEWindUncertainRec)')['sizeof(LEWindUncertainRec)']
    slots, calls, size = [], [], []

    def slot(i):
        B.prove('only-new-elements-are-drawn', And(i == I, i >= m, i < n))
        if not slots:
            slots.append(Struct())
        return slots[0]
    lst, sizes = Cell(Arr(slot)), Cell(Arr(lambda i: 0))
    this = Struct(fUncertainStartTime=late, fTimeUncertaintyWasSet=was, fDuration=dur, fWindUncertaintyList=lst if have else 0, fLESetSizes=sizes if have else 0, fSpeedScale=sp, fAngleScale=an,
                  fSigma2=0., fSigmaTheta=th0, fMaxAngle=big, fMaxSpeed=30.)
    this.cls = 'WindMover_c'
    draws = []

    def rndv(a, b):
        x, y = B.real('c%d' % len(draws), lo=-4, hi=4), B.real('s%d' % len(draws), lo=-4, hi=4)
        draws.append((x, y))
        a.set(x)
        b.set(y)

    asked = []

    def less(c, s_, smax, amax, s2, th):
        ok = B.bool('ok%d' % len(asked))
        B.prove('asks-about-its-draw', And(val(s_) == draws[-1][1], val(amax) == big, val(th) == th0))
        asked.append((ok, len(draws)))
        return Ite(ok, 1, 0)

    def note(what):
        def f(*a):
            calls.append((what, [val(x) if not isinstance(x, Arr) else x for x in a]))
            return 0
        return f
    it = Interp(B, 'WindMover_c.cpp', this=this, loops={1: EachElement('new', lambda nm: I if nm == 'i' else None, lambda nm: 0.)},
                contracts={'_GetHandleSize': lambda h: rec * m if h is lst else 8, '_SetHandleSize': lambda h, s: size.append(s), 'rndv': rndv, 'AllocateUncertainty': note('allocate'),
                           'UpdateUncertaintyValues': note('values'), 'DisposeUncertainty': note('dispose'), 'printNote': lambda *a: 0, 'printf': lambda *a: 0, 'TermsLessThanMax': less, 'printError': lambda *a: 0, 'TechError': lambda *a: 0})
    err = it.call('WindMover_c::UpdateUncertainty', el, 1, Arr(lambda i: n))
    B.prove('no-error', err == 0)
    done = [c for c, _ in calls]
    if 'dispose' in done or (not done and not have):
        B.prove('no-draws-before-the-delay', And(el < late, done == ['dispose'] if have else not done, not draws, this.f['fSigma2'] == 0.))
        return
    renew = Or(not have, el < was, n < m)
    if 'allocate' in done:
        B.prove('drawn-anew-only-when-needed', And(el >= late, renew, done == ['allocate', 'values']))
    elif done:
        B.prove('drawn-anew-after-its-duration', And(el >= late, done == ['values'], Not(renew), el >= was + dur))
    else:
        B.prove('kept-for-its-duration', Or(el < late, And(Not(renew), el < was + dur)))
        B.prove('before-the-delay-nothing', Implies(el < late, And(not have)))
    for c, a in calls:
        if c == 'values':
            B.prove('drawn-at-this-time', a[0] == el)
    if slots:
        f = slots[0].f
        B.prove('a-draw-for-each-new-element', And(n > m, len(size) == 1 and size[0] == rec * n, set(f) == {'randCos', 'randSin'}))
        if set(f) == {'randCos', 'randSin'} and draws:
            B.prove('its-own-last-draw', And(f['randCos'] == draws[-1][0], f['randSin'] == draws[-1][1]))
            if len(draws) <= 10:
                B.prove('within-the-angle-bound', And(asked[-1][0], asked[-1][1] == len(draws)) if asked else False)
    elif not have or 'allocate' in done:
        pass
    else:
        B.prove('no-new-elements', n <= m)
    t = this.f['fSigmaTheta']
    B.prove('angle-scale', And(t >= 0, B.close(t * t * t * t, an ** 4 * 2.73 ** 4 * (el - late), 1e-6 * (1 + an ** 4 * (el - late)))))
    B.prove('speed-scale', this.f['fSigma2'] >= 0)


def compiled_bound(B):
    """TermsLessThanMax: a draw is accepted exactly when its angle is within the bound"""
    if not B.symbolic:
        return
    from pyvc.cint import Interp, val
    c, s, a, s2, th = B.real('c', lo=-5, hi=5), B.real('s', lo=-5, hi=5), B.real('a', lo=0, hi=360), B.real('s2', lo=0, hi=100), B.real('th', lo=0, hi=100)
    r = val(Interp(B, 'WindMover_c.cpp').call('TermsLessThanMax', c, s, 30., a, s2, th))
    inside = And(th * s <= a, -th * s <= a)
    B.prove('angle-bound', r == inside if isinstance(r, SymBool) else ((r != 0) == inside if isinstance(r, Sym) else (inside if r else Not(inside))))


def _elements(B, n, unc, lat=0.):
    return make_sc(B, dict(positions=np.tile((5., lat, 0.), (n, 1)), next_positions=np.tile((5., lat, 0.), (n, 1)), status_codes=np.full(n, IN, np.int16),
                           windages=np.full(n, .03), windage_range=np.tile((.03, .03), (n, 1)), windage_persist=np.full(n, -1, np.int32)), None, uncertain=unc)


class Const:
    data_start = data_stop = None

    def __init__(self, u, v, w=0.):
        self.v = (u, v, w)

    def at(self, pos, t, *a, **k):
        return np.tile(self.v, (len(pos), 1))


def scatter(B):
    """bounded: many uncertain elements: unbiased, spread on both sides, within bounds; a second container's forecast is not touched"""
    from gnome.movers import constant_point_wind_mover
    from gnome.utilities import rand
    n = 6000
    kind = B.choice('kind', ['simple', 'current', 'wind', 'cwind'])
    np.random.seed(B.int('seed', lo=1, hi=10**6))
    rand.seed(B.int('seed2', lo=1, hi=10**6))
    dt = B.choice('dt', [900, 3600, -900])
    lat = B.choice('lat', [0., 45., -70.])
    th = B.real('dir', lo=0, hi=6.28)
    sp = B.real('sp', lo=1.5, hi=20)
    u, v = sp * np.cos(th), sp * np.sin(th)
    s1, s2 = B.choice('s1', [0., .1, .5, 1.]), B.choice('s2', [0., .1, .25, .9])
    wz = B.choice('w', [0., .001, -.002])
    steps = B.choice('steps', [1, 2, 5])
    late = abs(dt) * B.choice('late', [0, 0, 1, 3, 3]) if steps > 2 and kind in ('wind', 'cwind') else 0
    if kind == 'simple':
        m = SimpleMover((u, v, wz), uncertainty_scale=s1)
    elif kind == 'current':
        m = CurrentMover(current=Const(u, v, wz), uncertain_along=s1, uncertain_cross=s2, default_num_method=B.choice('meth', ['Euler', 'RK2', 'RK4']))
    elif kind == 'wind':
        m = WindMover(wind=Const(u, v), uncertain_speed_scale=2 * s1, uncertain_angle_scale=.4 * s2, uncertain_time_delay=late, default_num_method=B.choice('meth', ['Euler', 'RK2', 'RK4']))
    else:
        m = constant_point_wind_mover(sp, (270 - np.degrees(th)) % 360, 'm/s')
        m.uncertain_speed_scale, m.uncertain_angle_scale = 2 * s1, .4 * s2
        m.uncertain_angle_units = 'rad'
        m.uncertain_time_delay = late / 3600.
    m.prepare_for_model_run()
    ca, un = _elements(B, n, False, lat), _elements(B, n, True, lat)
    for k in range(steps):
        t = T + datetime.timedelta(seconds=k * dt)
        moves = []
        order = [ca, un] if B.bool('order') else [un, ca]
        for sc in order:
            m.prepare_for_model_step(sc, dt, t)
        for sc in order:
            moves.append((sc, np.array(m.get_move(sc, dt, t))))
        for sc in order:
            m.model_step_is_done(sc)
    D = {sc.uncertain: d for sc, d in moves}
    f = .03 if 'wind' in kind else 1.
    c = np.cos(np.radians(lat))

    def m_of(d):
        return d[:, 0] / K * c, d[:, 1] / K, d[:, 2]
    x, y, z = m_of(D[False])
    W = (f * u * dt, f * v * dt, 0. if 'wind' in kind else wz * dt)
    rt = 2e-3 if kind == 'cwind' else 1e-7
    B.prove('forecast-untouched', all(np.allclose(a, b, rtol=rt, atol=1e-2) for a, b in zip((x, y, z), W)), [x[:3], y[:3], z[:3], W])
    x, y, z = m_of(D[True])
    R = (W[0] ** 2 + W[1] ** 2) ** .5
    ex, ey = W[0] / R, W[1] / R
    al, cr = (x * ex + y * ey) / R, (-x * ey + y * ex) / R
    if kind == 'simple':
        for a, w in zip((x, y, z), W):
            r = abs(w) * s1
            B.prove('within-scale', (abs(a - w) <= r * (1 + 1e-6) + 1e-6).all(), [kind, a.min(), a.max(), w, r])
            B.prove('fills-its-range', a.min() <= w - r * .98 + 1e-6 and a.max() >= w + r * .98 - 1e-6, [a.min(), a.max(), w, r])
            B.prove('unbiased', abs(a.mean() - w) <= 6 * r / (3 * n) ** .5 + 1e-6, [a.mean(), w])
    elif kind == 'current':
        for a, w, r in ((al, 1, s1), (cr, 0, s2)):
            B.prove('within-scale', (abs(a - w) <= r * (1 + 1e-6) + 1e-6).all(), [kind, a.min(), a.max(), w, r])
            B.prove('fills-its-range', a.min() <= w - r * .98 + 1e-6 and a.max() >= w + r * .98 - 1e-6, [a.min(), a.max(), w, r])
            B.prove('unbiased', abs(a.mean() - w) <= 6 * r / (3 * n) ** .5 + 1e-6, [a.mean(), w])
    else:
        el = abs(dt) * (steps - (0 if kind == 'cwind' else 1)) - late
        sig = 2 * s1 * .315 * el ** .147 if el > 0 or s1 == 0 else 0.
        sig = sig * sig / 2
        sth = .4 * s2 * 2.73 * el ** .25
        B.prove('speed-unbiased', abs(al.mean() - 1) < .03 + 6 * al.std() / n ** .5, [al.mean(), al.std()])
        B.prove('angle-unbiased', abs(cr.mean()) < .02 + 6 * cr.std() / n ** .5, [cr.mean(), cr.std()])
        ang = np.degrees(np.arctan2(cr, al))
        B.prove('angle-limited', (abs(ang[al > 1e-9]) <= 60.01).all() if sth < 25 else True, [ang.min(), ang.max(), sth])
        # the draws are normal: the along part is (draw * s + m)^2 with m^4 = speed^2 - sig, s^2 = speed - m^2; the angle is draw * sth
        q = np.sqrt(max(sp * sp - sig, 0.))
        want = np.sqrt(2 * (1 - q / sp) ** 2 + 4 * (q / sp) * (1 - q / sp))
        B.prove('speed-spread', abs(al.std() - want) <= .08 * want + 2e-3, [al.std(), want, sig, sp])
        if sth < 15:
            B.prove('angle-spread', abs(ang[al > 1e-9].std() - sth) <= .06 * sth + .2, [ang.std(), sth])


def gridded_uncertain(B):
    """bounded: the compiled mover of a gridded current file: nothing but the forecast before the delay; afterwards every uncertain element
    deviates along and across the current within the scales, keeps its own deviation for its duration through releases and removals,
    and draws anew after it; forward and backward, in every numerical method; the forecast elements never deviate"""
    from . import gridfile
    from gnome.movers import c_GridCurrentMover
    from gnome.utilities import rand
    n = B.int('n', lo=1, hi=6)
    dt = B.choice('dt', [900, 900, -900])
    dur, delay = B.choice('dur', [1800, 3600, 86400]), B.choice('delay', [0, 0, 1800])
    along, cross = B.choice('along', [0., .1, .5, .9]), B.choice('cross', [.05, .25, .9])
    u, v = B.choice('flow', [(.5, 0.), (-.3, .4), (0., -1.), (.6, .6)])
    meth = B.choice('method', ['Euler', 'Euler', 'RK2', 'RK4'])
    rand.seed(B.int('seed', lo=1, hi=10**6))
    np.random.seed(B.int('seed2', lo=1, hi=10**6))
    steps = B.int('steps', lo=2, hi=8)
    with gridfile.Scratch() as d:
        m = c_GridCurrentMover(gridfile.write(d, T - datetime.timedelta(hours=12), [0, 24], [u, u], [v, v]), uncertain_along=along, uncertain_cross=cross, num_method=meth)
        m.uncertain_duration, m.uncertain_time_delay = dur / 3600., delay / 3600.
        for run in range(B.choice('runs', [1, 1, 2])):
            t = T
            m.prepare_for_model_run()
            ids, nxt = list(range(n)), n
            mine, born = {}, None
            for k in range(steps):
                un, ca = _elements(B, len(ids), True), _elements(B, len(ids), False)
                for sc in (un, ca):
                    sc['positions'][:, :2] = 0.
                moves = []
                for sc in (ca, un):
                    m.prepare_for_model_step(sc, dt, t)
                    moves.append(np.array(m.get_move(sc, dt, t)) * (1, 1, 0) / (8.9992801e-06 * dt))
                fc, mv = moves
                B.prove('forecast-never-deviates', np.allclose(fc[:, :2], (u, v), atol=2e-4), [fc])
                el = k * abs(dt)
                x, y = mv[:, 0], mv[:, 1]
                s2 = u * u + v * v
                a, b = (x * u + y * v) / s2 - 1, (x * v - y * u) / s2
                if el < delay:
                    B.prove('no-uncertainty-before-its-delay', np.allclose(mv, fc, atol=1e-6), [mv, fc])
                else:
                    B.prove('within-the-scales', bool((np.abs(a) <= along + 1e-3).all() and (np.abs(b) <= cross + 1e-3).all()), [a, b])
                    if born is not None and el < born + dur:
                        for i, p, q in zip(ids, a, b):
                            if i in mine:
                                B.prove('kept-for-its-duration', abs(mine[i][0] - p) < 1e-5 and abs(mine[i][1] - q) < 1e-5, [k, i, mine[i], p, q])
                    else:
                        B.prove('redrawn-after-its-duration', not any(i in mine and abs(mine[i][1] - q) < 1e-9 for i, q in zip(ids, b)), [k, mine, b])
                        born = el
                    B.prove('each-its-own', len(set(np.round(b, 9))) == len(ids), [b])
                    mine = dict(zip(ids, zip(a, b)))
                rm = [i for i in ids if B.choice('rm', [0, 0, 0, 0, 1])]
                if len(rm) == len(ids):
                    rm = rm[1:]
                un['status_codes'][[i in rm for i in ids]] = oil_status.to_be_removed
                m.model_step_is_done(ca)
                m.model_step_is_done(un)
                ids = [i for i in ids if i not in rm]
                new = B.choice('new', [0, 1, 3])
                ids += list(range(nxt, nxt + new))
                nxt += new
                t = t + datetime.timedelta(seconds=dt)
            m.post_model_run()


def calm(B):
    """bounded: in light winds (below 1 m/s) uncertain elements diffuse around the forecast's drift"""
    from gnome.movers import constant_point_wind_mover
    from gnome.utilities import rand
    n = 6000
    kind = B.choice('kind', ['wind', 'cwind'])
    np.random.seed(B.int('seed', lo=1, hi=10**6))
    rand.seed(B.int('seed2', lo=1, hi=10**6))
    dt = B.choice('dt', [900, 3600])
    th = B.real('dir', lo=0, hi=6.28)
    sp = B.choice('sp', [0., .2, .9])
    u, v = sp * np.cos(th), sp * np.sin(th)
    m = WindMover(wind=Const(u, v)) if kind == 'wind' else constant_point_wind_mover(sp, (270 - np.degrees(th)) % 360, 'm/s')
    m.prepare_for_model_run()
    un = _elements(B, n, True)
    m.prepare_for_model_step(un, dt, T)
    d = np.array(m.get_move(un, dt, T))
    r = .03 * (6 * 100. / dt) ** .5 * dt
    e = d[:, :2] - d[:, :2].mean(axis=0)
    B.prove('axes-apart', abs((e[:, 0] * e[:, 1]).mean()) <= .1 * e[:, 0].std() * e[:, 1].std(), [kind])
    for j, w in ((0, u), (1, v)):
        a = d[:, j] / K
        c = .03 * w * dt
        B.prove('diffuses-within-its-bound', (abs(a - c) <= r * 1.01 + 1e-3).all(), [kind, a.min(), a.max(), c, r])
        B.prove('on-both-sides', a.min() < c - .95 * r and a.max() > c + .95 * r, [kind, a.min(), a.max(), c, r])
        B.prove('unbiased', abs(a.mean() - c) < 6 * r / (3 * n) ** .5 + 1e-2 * abs(c), [kind, a.mean(), c])


def forecast(B):
    """bounded: whole runs: switching uncertainty on changes nothing in the forecast; both containers release alike"""
    from . import modelgen as M
    w = M.build(B, weather=B.choice('weather', [False, False, True]), uncertain=False, allowed=('simple', 'wind', 'rise'), maxsteps=6)
    for s in w.spills:
        x = B.choice('wdg', [.01, .03])
        s.substance.windage_range = (x, x)
    if w.land:
        w.map.refloat_halflife = B.choice('half2', [-1., 0.])
    one = M.run(w)
    w.model.uncertain = True
    two = M.run(w)
    B.prove('as-many-steps', len(one) == len(two), [len(one), len(two)])
    for k, (a, b) in enumerate(zip(one, two)):
        B.prove('two-containers', len(a) == 1 and len(b) == 2)
        if len(b) != 2:
            return
        a, b, u = a[0], b[0], b[1]
        B.prove('same-arrays', set(a.a) == set(b.a))
        for key in a.a:
            if a[key].dtype.kind in 'fiub' and key in b:
                same = a[key].shape == b[key].shape and np.allclose(a[key], b[key], rtol=1e-9, atol=1e-12, equal_nan=True)
                B.prove('forecast-untouched', same, [k, key, a[key][:3], b[key][:3]])
        B.prove('forecast-budget-untouched', set(a.mb) == set(b.mb) and all(np.isclose(a.mb[x], b.mb[x], rtol=1e-9, equal_nan=True) for x in a.mb), [a.mb, b.mb])
        seen = {int(i) for s in two[:k + 1] for i in s[1]['id']}
        seen0 = {int(i) for s in two[:k + 1] for i in s[0]['id']}
        left = any(s[c].mb.get('off_maps', 0.) > 0 for s in two[:k + 1] for c in (0, 1))      # gone within the step of their release
        B.prove('released-alike', left or seen == seen0, [k, sorted(seen ^ seen0)])
        im = {int(i): x for s in two[:k + 1] for i, x in zip(s[0]['id'], s[0]['init_mass'])}
        B.prove('same-mass-released', all(abs(im.get(int(i), x) - x) <= 1e-9 * (1 + abs(x)) for i, x in zip(u['id'], u['init_mass'])))


HARNESSES = [
    H('wind_off', wind_off, functions=['WindMover.add_uncertainty']),
    H('before_delay', wind_before, functions=['WindMover.update_uncertainty', 'WindMover.add_uncertainty', 'CurrentMover._update_uncertainty', 'CurrentMover._add_uncertainty']),
    H('wind_scales', wind_scales, functions=['WindMover.update_uncertainty']),
    H('current_sum', current_sum, functions=['CurrentMover._add_uncertainty']),
    H('compiled_wind', compiled_wind, functions=['WindMover_c::AddUncertainty'], conc=1),
    H('compiled_step', compiled_step, functions=['WindMover_c::PrepareForModelStep'], conc=1),
    H('compiled_update', compiled_update, functions=['WindMover_c::UpdateUncertainty'], conc=1),
    H('compiled_bound', compiled_bound, functions=['TermsLessThanMax'], conc=1),
    H('scatter', scatter, sym=False, conc=60, functions=['SimpleMover.get_move', 'CurrentMover.get_move', 'WindMover.get_move', 'PointWindMover.get_move', 'WindMover_c::AddUncertainty']),
    H('gridded_uncertain', gridded_uncertain, sym=False, conc=200, conc_budget=30, functions=['c_GridCurrentMover', 'GridCurrentMover_c::AddUncertainty', 'CurrentMover_c::UpdateUncertainty', 'CurrentMover_c::UpdateUncertaintyValues']),
    H('calm', calm, sym=False, conc=12, functions=['WindMover.add_uncertainty', 'WindMover_c::AddUncertainty']),
    H('forecast', forecast, sym=False, conc=100, functions=['Model.step', 'SpillContainerPair', 'SpillContainer.uncertain_copy']),
]
ASSUMPTIONS = ['the forecast comparison uses set-ups without random draws in the forecast itself (no diffusion, fixed windage, no random refloating)',
               'numpy.random.uniform(a, b) draws values between a and b']
