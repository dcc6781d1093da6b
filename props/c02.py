"""C02 element bookkeeping: arrays stay aligned, ids unique, release and removal touch nothing else"""
import datetime
from .common import *
from gnome.spill_container import SpillContainer
from gnome.spills import Spill, PointLineRelease
from gnome.basic_types import oil_status
from gnome import array_types as AT

T0 = datetime.datetime(2020, 1, 1)
NAMES = ['positions', 'next_positions', 'last_water_positions', 'status_codes', 'spill_num', 'id', 'mass', 'init_mass', 'density', 'age',
         'windages', 'windage_range', 'windage_persist', 'fate_status', 'release_rate', 'bulk_init_volume', 'area', 'fay_area', 'frac_coverage']


def world(B, N):
    """a container part-way through a run: N elements of arbitrary content; returns (sc, spill, snapshot)"""
    rel = PointLineRelease(release_time=T0, start_position=(1., 2., 0.), num_elements=10)
    other = Spill(release=PointLineRelease(release_time=T0, start_position=(3., 4., 0.), num_elements=5), on=False)
    sp = Spill(release=rel, amount=100, units='kg')
    sc = SpillContainer()
    sc.spills += other
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, 900)
    arr = {}
    for name, at in sc._array_types.items():
        arr[name] = B.array(name, (N,) + tuple(at.shape), dtype=at.dtype, lo=0, hi=100)
    sc._data_arrays = arr
    return sc, sp, rel, {k: v.copy() for k, v in arr.items()}


def rows(B, name, N, a, b, off=0):
    shp = AT._default_values[name][0]
    if shp:
        return B.forall('%s-untouched' % name, (N, shp[0]), lambda i, j: B.at(a, i, j) == B.at(b, i, j))
    return B.forall('%s-untouched' % name, (N,), lambda i: B.at(a, i) == B.at(b, i))


def release(B):
    """releasing appends exactly the missing elements to every array and leaves the old ones alone"""
    N = B.dim('N', 0)
    sc, sp, rel, old = world(B, N)
    done = B.int('done', lo=0, hi=50)
    want = B.int('want', lo=0, hi=60)
    sp._num_released = done
    first = B.int('next_id', lo=0, hi=1000)
    sc._array_types['id'].initial_value = first
    B.assume_forall((N,), lambda i: B.at(old['id'], i) < first)
    B.patch(rel, 'num_elements_after_time', lambda t: want)
    B.patch(sc._array_types['release_rate'], 'initial_value', 0.)     # nan is outside the proof
    pos = [B.real('p%d' % k, lo=-100, hi=100) for k in range(3)]

    def init(to_rel, sc_, a, b):
        # contract of Release.initialize_elements: only the new elements' positions and masses
        sc_['positions'][-to_rel:, 0] = pos[0]
        sc_['positions'][-to_rel:, 1] = pos[1]
        sc_['mass'][-to_rel:] = 1.5
        sc_['init_mass'][-to_rel:] = 1.5
    B.patch(rel, 'initialize_elements', init)
    B.patch(sp.substance, 'initialize_elements', lambda to_rel, sc_, environment=None: None)
    B.patch(rel, 'initialize_elements_post_substance', lambda *a, **k: None)
    n = sc.release_elements(T0, T0 + datetime.timedelta(seconds=900))
    new = (want - done)
    B.prove('number-released', (n == Ite(new > 0, new, 0)) if B.symbolic else n == max(new, 0))
    B.prove('released-count-kept', sp._num_released == (Ite(new > 0, want, done) if B.symbolic else max(want, done)))
    for name in old:
        B.prove('aligned', len_(B, sc[name]) == N.n + n, )
        rows(B, name, N, sc[name], old[name])
    if n > 0:
        B.cover('released')
        M = B_dim(B, n)
        o = N.n
        B.forall('new-ids-are-consecutive', (M,), lambda i: B.at(sc['id'], o + i) == first + i)
        B.forall('new-spill-num', (M,), lambda i: B.at(sc['spill_num'], o + i) == 1)
        B.forall('new-in-water', (M,), lambda i: B.at(sc['status_codes'], o + i) == oil_status.in_water)
        B.forall('new-age', (M,), lambda i: B.at(sc['age'], o + i) == 0)
        B.forall('new-mass', (M,), lambda i: B.at(sc['mass'], o + i) == 1.5)
        B.prove('next-id', sc._array_types['id'].initial_value == first + n)
    else:
        B.prove('next-id-kept', sc._array_types['id'].initial_value == first)


def len_(B, a):
    if B.symbolic:
        from pyvc.arrays import dlen
        return Sym(dlen(a.dims[0]))
    return len(a)


def B_dim(B, n):
    if B.symbolic:
        from pyvc.arrays import _dim_of
        return _dim_of(n)
    return n


def off(B):
    """a spill that is off releases nothing"""
    N = B.dim('N', 0)
    sc, sp, rel, old = world(B, N)
    sp.on = False
    B.patch(rel, 'num_elements_after_time', lambda t: B.int('want', lo=0, hi=60))
    n = sc.release_elements(T0, T0 + datetime.timedelta(seconds=900))
    B.prove('nothing-released', n == 0)
    for name in old:
        rows(B, name, N, sc[name], old[name])
        B.prove('aligned', len_(B, sc[name]) == N.n)


def removal(B):
    """the end of a step drops exactly the elements marked for removal, in every array alike"""
    N = B.dim('N', 0)
    sc, sp, rel, old = world(B, N)
    st = B.array('st', (N,), dtype=np.int16, choices=[0, 2, 3, 7, 10, 12])
    sc._data_arrays['status_codes'] = st
    old['status_codes'] = st.copy()
    sc.model_step_is_done()
    gone = oil_status.to_be_removed
    if B.symbolic:
        from pyvc.arrays import Dom
        import z3
        for name in old:
            a = sc[name]
            d = a.dims[0]
            shp = AT._default_values[name][0]

            def body(i, j=None):
                ix = (i,) if j is None else (i, j)
                same = B.at(a, *ix) == B.at(old[name], *ix)
                inside = SymBool(d.inside(i.t)) if isinstance(d, Dom) else True
                return And(inside == Not(B.at(old['status_codes'], i) == gone), Implies(inside, same))
            ok = isinstance(d, Dom) and d.space is N.dom.space
            if not ok:
                from pyvc.terms import Unsupported
                raise Unsupported('removal result is not a selection of the old elements')
            B.forall('%s-survivors-exact' % name, (N,) + ((shp[0],) if shp else ()), body)
        return
    keep = old['status_codes'] != gone
    for name in old:
        B.prove('%s-survivors-exact' % name, np.array_equal(sc[name], old[name][keep]))


def ageing(B):
    """Model.step_is_done: every remaining element is older by exactly the length of the step, forwards or backwards"""
    from gnome.model import Model
    N = B.dim('N', 0)
    sc, sp, rel, old = world(B, N)
    st = B.array('st', (N,), dtype=np.int16, choices=[2, 3, 7])
    sc._data_arrays['status_codes'] = st
    back = B.choice('backwards', [False, True])
    m = Model(time_step=900, run_backwards=back)
    dt = B.int('dt', lo=1, hi=86400)     # the age is kept in whole seconds
    poke(m, _time_step=-dt if back else dt)
    B.patch(m, 'spills', Obj(items=lambda: [sc]))
    m.step_is_done()
    B.forall('older-by-the-step', (N,), lambda i: B.close(B.at(sc['age'], i), B.at(old['age'], i) + dt, 1e-9))
    for name in old:
        if name not in ('age', 'status_codes'):
            rows(B, name, N, sc[name], old[name])


# -- whole runs and the containers' own operations (bounded) ---------------------------------------------------------------

def lives(B):
    """along any run: one length for every array, ids unique and ascending, each element keeps its identity"""
    from . import modelgen as G
    w = G.build(B, uncertain=True if B.choice('unc', [0, 1]) else None, maxsteps=6, backward=True)
    known = {}
    last = {}
    made = {}

    def after(m):
        for k, sc in enumerate(m.spills.items()):
            n = len(sc['id'])
            for name, a in sc.data_arrays.items():
                B.prove('run-aligned', len(a) == n, '%s has %d of %d' % (name, len(a), n))
            ids = [int(i) for i in sc['id']]
            B.prove('run-ids-ascend', all(a < b for a, b in zip(ids, ids[1:])), ids)
            old = known.setdefault(k, {})
            now = set(ids)
            top = made.get(k, -1)
            for r, i in enumerate(ids):
                me = (int(sc['spill_num'][r]), float(sc['init_mass'][r]) if 'init_mass' in sc else 0.)
                if i in old:
                    B.prove('run-identity', old[i] == me, (i, old[i], me))
                    B.prove('run-nothing-comes-back', i in last[k], i)
                else:
                    B.prove('run-id-fresh', i > top, (i, top))
                    old[i] = me
            made[k] = max([top] + ids)
            last[k] = now
            B.prove('len-is-number-of-elements', len(sc) == n and sc.num_released == n)
    G.run(w, after_step=lambda *a: after(w.model))
    if w.unc:
        a, b = [[getattr(x, '_num_released', None) for x in sc.spills] for sc in w.model.spills.items()]
        B.prove('uncertain-releases-alike', a == b, (a, b))


def assign(B):
    """a replaced array keeps shape and type, a new one has one entry per element"""
    n = B.int('n', lo=0, hi=6)
    k = B.int('k', lo=0, hi=7)
    sc = SpillContainer()
    if n:
        sc.spills += Spill(release=PointLineRelease(release_time=T0, start_position=(1., 2., 0.), num_elements=n), amount=3, units='kg')
    sc.prepare_for_model_run({}, 900)
    if n:
        sc.release_elements(T0, T0 + datetime.timedelta(seconds=900))
    before = {x: v.copy() for x, v in sc.data_arrays.items()}
    what = B.choice('what', ['new', 'new2d', 'scalar', 'same', 'short', 'type'])
    err = None
    val = {'new': np.arange(k, dtype=float), 'new2d': np.zeros((k, 2)), 'scalar': 3., 'same': np.full(n, 7.), 'short': np.full(k, 7.),
           'type': np.full(n, 7, dtype=np.int32)}[what]
    name = 'extra' if what in ('new', 'new2d', 'scalar') else 'mass'
    try:
        sc[name] = val
    except (ValueError, IndexError, TypeError) as e:
        err = type(e)
    if what in ('new', 'new2d'):
        B.prove('new-array-length', (err is IndexError) if k != n else err is None, (k, n, err))
    elif what == 'scalar':
        B.prove('no-scalars', err is TypeError, err)
    elif what == 'type':
        B.prove('type-kept', err is ValueError, err)
    else:
        B.prove('shape-kept', (err is ValueError) if len(val) != n else err is None, (len(val), n, err))
    for x, v in before.items():
        if err is None and x == name:
            v = val
        B.prove('rest-untouched', np.array_equal(sc[x], v, equal_nan=True), x)
    if err is None:
        B.prove('assigned', np.array_equal(sc[name], val))


def _spill(B, i, mass=None):
    return Spill(release=PointLineRelease(release_time=T0, start_position=(float(i), 2., 0.), num_elements=i + 1),
                 amount=mass if mass is not None else 10. + i, units='kg', name='s%d' % i, on=B.bool('on'))


def pair(B):
    """the forecast and uncertainty containers hold matching spills whatever is added, replaced, removed or switched"""
    from gnome.spill_container import SpillContainerPair
    scp = SpillContainerPair(uncertain=B.bool('uncertain0'))
    B.prove('starts-as-asked', scp.uncertain in (True, False))
    model = []
    for step in range(B.int('ops', lo=1, hi=8)):
        op = B.choice('op', ['add', 'add', 'list', 'tuple', 'remove', 'replace', 'clear', 'toggle', 'update', 'same', 'bad', 'badpair', 'none', 'edit', 'edit'])
        s = _spill(B, step)
        if op == 'add':
            scp += s
            model.append(s)
        elif op == 'list':
            t = _spill(B, step + 20)
            scp.add([s, t])
            model += [s, t]
        elif op == 'tuple':
            scp.add((s, s.uncertain_copy()) if scp.uncertain else (s,))
            model.append(s)
        elif op == 'badpair':
            try:
                scp.add((s,) if scp.uncertain else (s, s.uncertain_copy()))
                B.prove('half-a-pair-refused', False, scp.uncertain)
            except ValueError:
                pass
        elif op == 'bad':
            try:
                scp.uncertain = B.choice('badval', [1, 0, None, 'yes'])
                B.prove('uncertain-is-bool', False)
            except TypeError:
                pass
        elif op == 'remove' and model:
            i = B.int('i', lo=0, hi=len(model) - 1)
            del scp[B.choice('by', [i, model[i].id])]
            del model[i]
        elif op == 'replace' and model:
            i = B.int('i', lo=0, hi=len(model) - 1)
            scp[B.choice('by', [i, model[i].id])] = s
            model[i] = s
        elif op == 'clear':
            scp.clear()
            model = []
        elif op == 'toggle':
            was = scp.uncertain
            scp.uncertain = not was
            B.prove('toggled', scp.uncertain is (not was))
        elif op == 'update':
            new = model[1:] + [s]
            B.prove('update-says-changed', scp.update_from_dict({'spills': list(new)}) is True)
            model = new
        elif op == 'none':
            B.prove('update-says-emptied', scp.update_from_dict({'spills': []}) is bool(model))
            model = []
        elif op == 'edit' and model:
            y = model[B.int('i', lo=0, hi=len(model) - 1)]
            what = B.choice('what', ['amount', 'num', 'on', 'where'])
            if what == 'amount':
                y.amount = y.amount + B.choice('more', [1., 55.])
            elif what == 'num':
                y.num_elements = y.num_elements + B.choice('more', [1, 7])
            elif what == 'on':
                y.on = not y.on
            else:
                y.release.start_position = y.release.start_position + np.array((1., 0., 0.))
            scp.rewind()
        elif op == 'same':
            B.prove('update-says-unchanged', scp.update_from_dict({'spills': list(model)}) is False)
        boxes = scp.items()
        B.prove('two-containers-iff-uncertain', len(boxes) == (2 if scp.uncertain else 1))
        B.prove('container-kinds', [b.uncertain for b in boxes] == [False, True][:len(boxes)])
        B.prove('pair-length', len(scp) == len(model), (len(scp), len(model)))
        B.prove('pair-order', [x.id for x in scp] == [x.id for x in model])
        for b in boxes:
            got = list(b.spills)
            ok = len(got) == len(model)
            B.prove('both-have-as-many', ok, (op, len(got), len(model)))
            if not ok:
                return
            for x, y in zip(got, model):
                B.prove('both-match', (x.name, x.num_elements, x.amount, x.on) == (y.name, y.num_elements, y.amount, y.on) and
                        tuple(x.release.start_position) == tuple(y.release.start_position), (op, x.name, y.name))
                B.prove('copies-are-separate', (x is y) != b.uncertain)
        for i, y in enumerate(model):
            B.prove('index', scp.index(y) == i and scp[i] is y and scp[y.id] is y and y in scp, (scp.index(y), i, scp[i] is y, scp[y.id] is y, y in scp))
            B.prove('by-index', scp.spill_by_index(i) is y)
            if scp.uncertain:
                B.prove('by-index-uncertain', scp.spill_by_index(i, uncertain=True) is list(boxes[1].spills)[i])
        tot = sum(y.get_mass() for y in model)
        for b in boxes:
            B.prove('total-mass', (b.total_mass or 0) == tot or abs((b.total_mass or 0) - tot) < 1e-9 * tot)
    end = T0 + datetime.timedelta(seconds=900)
    for b in scp.items():
        b.prepare_for_model_run({}, 900)
        b.release_elements(T0, end)
        b.current_time_stamp = T0 if not b.uncertain else end
    want = sum(s.num_elements for s in model if s.on)
    B.prove('num-released', scp.num_released == (want,) * len(scp.items()), (scp.num_released, want))
    B.prove('LE-forecast', scp.LE('positions') is scp.items()[0]['positions'] and scp.LE('current_time_stamp') == T0)
    if scp.uncertain:
        B.prove('LE-uncertain', scp.LE('positions', uncertain=True) is scp.items()[1]['positions'])
        B.prove('LE-uncertain-time', scp.LE('current_time_stamp', uncertain=True) == end)
    scp.rewind()
    for b in scp.items():
        B.prove('rewound-empty', len(b) == 0)
        B.prove('rewound-spills', [x.name for x in b.spills] == [x.name for x in model])


def split(B):
    """splitting an element divides what is an amount, copies what is not, and leaves the others alone"""
    n = B.int('n', lo=1, hi=5)
    sc = SpillContainer()
    sp = Spill(release=PointLineRelease(release_time=T0, start_position=(1., 2., 0.), num_elements=n), amount=3, units='kg')
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, 900)
    sc.release_elements(T0, T0 + datetime.timedelta(seconds=900))
    for name, at in sc._array_types.items():
        if name != 'id':
            a = sc._data_arrays[name]
            a[...] = np.random.RandomState(B.int('s', lo=0, hi=999)).randint(1, 50, a.shape)
    old = {x: v.copy() for x, v in sc.data_arrays.items()}
    r = B.int('r', lo=0, hi=n - 1)
    k = B.int('k', lo=2, hi=4)
    if B.bool('fractions'):
        f = np.array([B.real('f%d' % i, lo=.05, hi=1) for i in range(k)])
        f = f / f.sum()
        frac = list(f)
    else:
        f, frac = np.full(k, 1. / k), None
    sc.split_element(int(old['id'][r]), k, frac)
    for name, at in sc._array_types.items():
        a, o = sc[name], old[name]
        ok = len(a) == n + k - 1
        B.prove('split-aligned', ok, name)
        if not ok:
            return
        B.prove('split-others-before', np.array_equal(a[:r], o[:r]), name)
        B.prove('split-others-after', np.array_equal(a[r + k:], o[r + 1:]), name)
        if name in ('mass', 'init_mass', 'mass_components', 'init_volume', 'bulk_init_volume') and isinstance(at, AT.ArrayTypeDivideOnSplit):
            want = f.reshape((-1,) + (1,) * (o.ndim - 1)) * o[r]
            B.prove('split-divides', np.allclose(a[r:r + k], want, rtol=1e-12), name)
        elif not isinstance(at, AT.ArrayTypeDivideOnSplit):
            B.prove('split-copies', all(np.array_equal(x, o[r]) for x in a[r:r + k]), name)
    B.prove('mass-is-divided', np.isclose(sc['mass'].sum(), old['mass'].sum(), rtol=1e-12))


HARNESSES = [
    H('release', release, functions=['SpillContainer.release_elements', 'Spill.release_elements', 'SpillContainer._append_data_arrays',
                                     'ArrayType.initialize', 'IdArrayType.initialize'], covers=['released']),
    H('spill_off', off, functions=['SpillContainer.release_elements', 'Spill.release_elements']),
    H('removal', removal, functions=['SpillContainer.model_step_is_done']),
    H('ageing', ageing, functions=['Model.step_is_done']),
    H('lives', lives, sym=False, conc=60, conc_budget=30, functions=['SpillContainer', 'Model.step']),
    H('assign', assign, sym=False, conc=200, functions=['SpillContainerData.__setitem__', 'SpillContainerData.__len__']),
    H('pair', pair, sym=False, conc=150, functions=['SpillContainerPair', 'SpillContainer.uncertain_copy', 'SpillContainer.total_mass']),
    H('split', split, sym=False, conc=120, functions=['SpillContainer.split_element', 'ArrayType.split_element', 'ArrayTypeDivideOnSplit.split_element']),
]
