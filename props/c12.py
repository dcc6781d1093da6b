"""C12 depth: no element is ever above the surface; vertical movers do what they say"""
from .common import *
from . import modelgen as M
from gnome.basic_types import oil_status, spill_type
from pyvc import cint
from pyvc.cint import Interp, Struct, Arr, Cell, val
from pyvc.terms import Unsupported

IN = oil_status.in_water
MPD = 111120.00024


def world_arrays(B, N):
    return (B.array('x', (N,), lo=-180, hi=180), B.array('y', (N,), lo=-85, hi=85), B.array('z', (N,), lo=0, hi=4000), B.array('st', (N,), dtype=np.int16, choices=[0, IN, 3, 7]))


def element_arrays(B, I, N, x, y, z, st, delta, extra=()):
    """the arguments (ref, delta, ..., LE_status) of a compiled get_move as memory; only element I may be written"""
    ref = Arr(lambda i: Struct(p=Struct(pLong=x[i], pLat=y[i]), z=z[i]))

    def wr(i, v):
        B.prove('writes-its-own-element', i == I)
        delta[0] = v

    def rd(i):
        B.prove('reads-its-own-element', i == I)
        if delta[0] is None:
            raise Unsupported('delta read before written')
        return delta[0]
    return ref, Arr(rd, wr)


def consts():
    return cint.constants('', 'OILSTAT_INWATER', 'FORECAST_LE', 'UNCERTAINTY_LE')


def junk(B):
    return lambda nm: Struct()


def run_sym(B, path, cls, this, args, contracts, N, I, extra=None):
    """execute <cls>::get_move for the arbitrary element I; args: list with the markers 'ref', 'delta', 'st', 'n'"""
    x, y, z, st = args['arrays']
    delta = [None]
    ref, dl = element_arrays(B, I, N, x, y, z, st, delta)
    this.cls = cls
    it = Interp(B, path, contracts=contracts, this=this, consts=dict(consts(), **(extra or {})),
                loops={0: cint.EachElement('elements', lambda nm: I if nm == 'i' else None, lambda nm: Struct())})
    n = N.n if hasattr(N, 'n') else N
    mem = dict(n=n, ref=ref, delta=dl, st=Arr(lambda i: st[i]), time=args['time'], step=args['dt'], kind=args['kind'], sid=0, **{k: Arr(lambda i, a=a: a[i]) for k, a in args.get('more', {}).items()})
    it.call(cls + '::get_move', *[mem[k] for k in args['order']])
    if delta[0] is None:
        B.prove('every-element-gets-a-move', False)
    d = delta[0]
    return d.p.pLong, d.p.pLat, d.z


class _This(Struct):
    pass


def fake_sc(n, x, y, z, st, **k):
    from gnome.spill_container import SpillContainer
    pos = np.column_stack([x, y, z]).astype(float) if n else np.zeros((0, 3))
    return make_sc(None, dict(positions=pos, status_codes=np.asarray(st, np.int16), windages=np.zeros(n), **k), None)


def rise(B):
    """RiseVelocity_c::get_move: an element in the water rises by its rise velocity times the step; nothing else moves"""
    N = B.dim('N', 1)
    x, y, z, st = world_arrays(B, N)
    rv = B.array('rv', (N,), lo=-1, hi=1)
    dt = B.int('dt', lo=1, hi=86400)

    def contract(i, dx, dy, dz):
        w = B.at(st, i) == IN
        return And(B.close(dx, 0., 0), B.close(dy, 0., 0), Implies(w, B.close(dz, -B.at(rv, i) * dt)), Implies(Not(w) if B.symbolic else not w, B.close(dz, 0., 0)))
    if B.symbolic:
        I = B.int('I', lo=0)
        B.assume(I < N.n)
        this = _This()
        dx, dy, dz = run_sym(B, 'RiseVelocity_c.cpp', 'RiseVelocity_c', this, dict(arrays=(x, y, z, st), more=dict(rv=rv), time=B.int('t', lo=0), dt=dt, kind=B.choice('kind', [1, 2]),
                                                                             order=['n', 'time', 'step', 'ref', 'delta', 'rv', 'st', 'kind', 'sid']), {}, N, I)
        B.prove('rises-by-velocity-times-step', contract(I, dx, dy, dz))
        return
    from gnome.movers import RiseVelocityMover
    n = len(x)
    sc = fake_sc(n, x, y, z, st, rise_vel=np.asarray(rv, float).copy())
    m = RiseVelocityMover()
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dt, M.T0)
    d = m.get_move(sc, dt, M.T0)
    for i in range(n):
        B.prove('rises-by-velocity-times-step', bool(contract(i, d[i, 0], d[i, 1], d[i, 2])), [i, d[i]])


def diffuse(B):
    """RandomVertical_c::get_move: never above the surface, never further than the diffusion allows, surface elements left alone if so asked"""
    N = B.dim('N', 1)
    x, y, z, st = world_arrays(B, N)
    dt = B.int('dt', lo=1, hi=7200)
    va, vb = B.real('va', lo=0, hi=500), B.real('vb', lo=0, hi=500)
    ha, hb = B.real('ha', lo=0, hi=1e6), B.real('hb', lo=0, hi=1e6)
    mld = B.real('mld', lo=0, hi=50)
    surf = B.bool('surf')
    sq = lambda c: cint.c_sqrt(6. * (c / 10000.) * dt)
    sa, sb = sq(va), sq(vb)
    H = [None, None]

    def contract(name, i, dx, dy, dz):
        w = B.at(st, i) == IN
        zi = B.at(z, i)
        nw = zi + dz
        B.prove(name + '-not-above-the-surface', Implies(w, nw >= (0 if B.symbolic else -1e-9)), [zi, dz])
        B.prove(name + '-no-further-than-diffusion', Implies(w, Or(nw <= zi + sa + sb + 1e-5, nw <= mld + sb + 1e-5)), [zi, dz])
        B.prove(name + '-not-in-water-stays', Or(w, And(B.close(dx, 0., 0), B.close(dy, 0., 0), B.close(dz, 0., 0))), [zi, dz])
        B.prove(name + '-surface-left-alone', Implies(And(w, surf, zi <= 0), And(B.close(dx, 0., 0), B.close(dy, 0., 0), B.close(dz, 0., 0))), [zi, dz])
        B.prove(name + '-below-the-layer-only-the-lower-diffusion', Implies(And(w, zi > mld), And(nw <= zi + sb + 1e-5, Or(nw >= zi - sb - 1e-5))), [zi, dz])
        h = cint.c_sqrt(6. * (Ite(zi > mld, hb, ha) / 10000.) * dt) / MPD if B.symbolic else np.sqrt(6 * (hb if zi > mld else ha) / 10000. * dt) / MPD
        B.prove(name + '-horizontal-reach', Implies(w, And(dy <= h * (1 + 1e-6) + 1e-12, dy >= -h * (1 + 1e-6) - 1e-12)), [dy, h])
    if B.symbolic:
        I = B.int('I', lo=0)
        B.assume(I < N.n)
        this = _This(fVerticalDiffusionCoefficient=va, fVerticalBottomDiffusionCoefficient=vb, fMixedLayerDepth=mld, bSurfaceIsAllowed=surf, fHorizontalDiffusionCoefficient=ha, fHorizontalDiffusionCoefficientBelowML=hb)

        def rnd(lo, hi):
            lo, hi = val(lo), val(hi)
            r = B.real('rand')
            B.assume(And(r >= Ite(lo <= hi, lo, hi) if isinstance(lo <= hi, SymBool) else r >= min(lo, hi), r <= (Ite(lo <= hi, hi, lo) if isinstance(lo <= hi, SymBool) else max(lo, hi))))
            return r

        def ratio(lat):
            r = B.real('ratio')
            B.assume(And(r > 0, r <= 1))
            return r
        dx, dy, dz = run_sym(B, 'RandomVertical_c.cpp', 'RandomVertical_c', this, dict(arrays=(x, y, z, st), time=B.int('t', lo=0), dt=dt, kind=B.int('kind', lo=1, hi=2),
                                                                                 order=['n', 'time', 'step', 'ref', 'delta', 'st', 'kind', 'sid']),
                             {'GetRandomFloat': rnd, 'LongToLatRatio3': ratio}, N, I)
        contract('element', I, dx, dy, dz)
        return
    from gnome.movers import RandomMover3D
    n = len(x)
    sc = fake_sc(n, x, y, z, st)
    m = RandomMover3D(va, vb, ha, hb, mld, surf)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dt, M.T0)
    d = m.get_move(sc, dt, M.T0)
    for i in range(n):
        contract('element', i, d[i, 0], d[i, 1], d[i, 2])


def random2d(B):
    """Random_c::get_move: surface elements in the water wander within the diffusion distance (uncertain ones within theirs), nothing sinks or rises"""
    N = B.dim('N', 1)
    x, y, z, st = world_arrays(B, N)
    dt = B.int('dt', lo=1, hi=7200) * (1 if B.bool('fwd') else -1)
    D, uf = B.real('D', lo=0, hi=1e6), B.real('uf', lo=1, hi=10)
    kind = B.choice('kind', [1, 2])
    first = B.bool('first')
    h = cint.c_sqrt((uf if kind == 2 else 1.) * 6. * (D / 10000.) * abs(dt)) / MPD

    def contract(i, dx, dy, dz):
        w = And(B.at(st, i) == IN, B.at(z, i) <= 0)
        B.prove('no-vertical-move', B.close(dz, 0., 0))
        B.prove('only-at-the-surface-in-the-water', Or(w, And(B.close(dx, 0., 0), B.close(dy, 0., 0))), [dx, dy])
        B.prove('northward-reach', And(dy <= h * (1 + 1e-6), dy >= -h * (1 + 1e-6)), [dy, h])
        return w
    if B.symbolic:
        I = B.int('I', lo=0)
        B.assume(I < N.n)
        opt = B.bool('optimised')
        this = _This(fDiffusionCoefficient=D, fUncertaintyFactor=uf, bUseDepthDependent=False, fOptimize=Struct(isFirstStep=first, isOptimizedForStep=False, value=B.real('v0'), uncertaintyValue=B.real('u0')))
        this.cls = 'Random_c'
        if opt:
            Interp(B, 'Random_c.cpp', this=this).call('Random_c::PrepareForModelStep', 0, dt, False, 0, None)

        def rnd(lo, hi):
            r = B.real('rand')
            B.assume(And(r >= val(lo), r <= val(hi)))
            return r

        def circle(u, v):
            a, b = B.real('ca'), B.real('cb')
            B.assume(And(a * a + b * b <= 1, a >= -1, a <= 1, b >= -1, b <= 1))
            u.set(a)
            v.set(b)

        rt = B.real('ratio')
        B.assume(And(rt > 0, rt <= 1))
        lat = []

        def ratio(la):
            lat.append(val(la))
            return rt
        dx, dy, dz = run_sym(B, 'Random_c.cpp', 'Random_c', this, dict(arrays=(x, y, z, st), time=B.int('t', lo=0), dt=dt, kind=kind, order=['n', 'time', 'step', 'ref', 'delta', 'st', 'kind', 'sid']),
                             {'GetRandomFloat': rnd, 'GetRandomVectorInUnitCircle': circle, 'LongToLatRatio3': ratio}, N, I)
        contract(I, dx, dy, dz)
        B.prove('eastward-reach-at-its-own-latitude', And(dx * rt <= h * (1 + 1e-6), dx * rt >= -h * (1 + 1e-6)))
        for la in lat:
            B.prove('own-latitude', And(la <= y[I] * 1000000 + 1, la >= y[I] * 1000000 - 1))
        return
    from gnome.movers import RandomMover
    n = len(x)
    z = np.where(np.arange(n) % 3 == 0, z, 0.)
    sc = fake_sc(n, x, y, z, st)
    sc.spill_type = spill_type.uncertainty if kind == 2 else spill_type.forecast
    sc.uncertain = kind == 2
    m = RandomMover(diffusion_coef=D, uncertain_factor=uf)
    m.prepare_for_model_run()
    if not first:
        m.prepare_for_model_step(sc, dt, M.T0)
        m.model_step_is_done()
    m.prepare_for_model_step(sc, dt, M.T0)
    d = m.get_move(sc, dt, M.T0)
    for i in range(n):
        c = np.cos(np.radians(y[i]))
        s = B.at(z, i)
        w = st[i] == IN and s <= 0
        B.prove('no-vertical-move', d[i, 2] == 0)
        B.prove('only-at-the-surface-in-the-water', bool(w or (d[i, 0] == 0 and d[i, 1] == 0)), [d[i]])
        B.prove('northward-reach', abs(d[i, 1]) <= h * (1 + 1e-6), [d[i], h])
        B.prove('eastward-reach', abs(d[i, 0]) * c <= h * (1 + 1e-4), [d[i], h])


def draws(B):
    """GetRandomFloat: between its bounds"""
    lo, hi = B.real('lo', lo=-10, hi=10), B.real('hi', lo=-10, hi=10)
    B.assume(lo <= hi)
    if not B.symbolic:
        return
    mx = cint.constants('', 'RAND_MAX')['RAND_MAX']
    r = B.int('r', lo=0, hi=mx)
    v = Interp(B, 'CompFunctions.cpp', contracts={'rand': lambda: r}).call('GetRandomFloat', lo, hi)
    B.prove('between-its-bounds', And(v >= lo, v <= hi))


def surfaced(B):
    """every map: what ends above the surface is put on it, nothing else is touched"""
    from gnome.maps import GnomeMap, ParamMap, RasterMap
    N = B.dim('N', 1)
    a = dict(positions=B.array('pos', (N, 3), lo=-50, hi=50), next_positions=B.array('nxt', (N, 3), lo=-50, hi=50))
    sc = make_sc(B, a, None)
    old = {k: v.copy() for k, v in a.items()}
    GnomeMap().resurface_airborne_elements(sc)
    B.forall('on-or-below-the-surface', (N,), lambda i: B.at(sc['next_positions'], i, 2) == (Ite(B.at(old['next_positions'], i, 2) < 0, 0., B.at(old['next_positions'], i, 2)) if B.symbolic else max(0., B.at(old['next_positions'], i, 2))))
    B.forall('place-kept', (N, 2), lambda i, j: B.at(sc['next_positions'], i, j) == B.at(old['next_positions'], i, j))
    B.forall('positions-kept', (N, 3), lambda i, j: B.at(sc['positions'], i, j) == B.at(old['positions'], i, j))


def runs(B):
    """bounded: whole runs, every step"""
    w = M.build(B, maxsteps=6, backward=True)
    h0 = M.run(w)
    for step in h0:
        for o in step:
            if len(o):
                B.prove('never-above-the-surface', bool((o['positions'][:, 2] >= 0).all()), o['positions'][:, 2].min())
                B.prove('depth-is-a-number', bool(np.isfinite(o['positions'][:, 2]).all()))


HARNESSES = [
    H('rise', rise, functions=['RiseVelocity_c::get_move / GetMove']),
    H('diffuse', diffuse, functions=['RandomVertical_c::get_move / GetMove']),
    H('random2d', random2d, functions=['Random_c::get_move / GetMove / PrepareForModelStep']),
    H('draws', draws, functions=['GetRandomFloat'], conc=1),
    H('surfaced', surfaced, functions=['gnome.maps.map.GnomeMap.resurface_airborne_elements']),
    H('runs', runs, sym=False, conc=120, functions=['gnome.model.Model.step'], conc_budget=40),
]
