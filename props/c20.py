"""C20 the cache gives every step back as it was saved"""
import copy
import datetime
import os
import tempfile
import warnings
from .common import *
from .modelgen import T0, TD, secs
from gnome.utilities.cache import ElementCache, CacheError


class Files:
    """contract of numpy's npz files: what is loaded under a name is what was last saved under it, unaffected by later changes"""
    def __init__(self):
        self.d = {}

    def savez(self, name, **data):
        self.d[name] = copy.deepcopy(data)

    def load(self, name, allow_pickle=False):
        if name not in self.d:
            raise FileNotFoundError(name)
        return copy.deepcopy(self.d[name])


def container(B, uncertain, tag, empty, stamp):
    N = B.dim('N' + tag, 0)
    a = dict(positions=B.array('pos' + tag, (N, 3), lo=-100, hi=100), mass=B.array('mass' + tag, (N,), lo=0, hi=100),
             status_codes=B.array('st' + tag, (N,), dtype=np.int16, choices=[0, 2, 3, 7]))
    sc = make_sc(B, a, None, uncertain=uncertain)
    sc.mass_balance = {} if empty else dict(floating=B.real('fl' + tag, lo=0, hi=10), beached=B.real('be' + tag, lo=0, hi=10))
    sc.current_time_stamp = stamp
    return N, sc


def same(B, name, N, got, arrays, mb, stamp):
    for k, v in arrays.items():
        dims = (N, 3) if k == 'positions' else (N,)
        B.forall(name + '-' + k, dims, lambda *ix: B.at(got[k], *ix) == B.at(v, *ix))
    B.prove(name + '-arrays', set(got._data_arrays) == set(arrays), str(sorted(got._data_arrays)))
    B.prove(name + '-balance-keys', set(got.mass_balance) == set(mb), str(sorted(got.mass_balance)))
    for k in mb:
        B.prove(name + '-balance', got.mass_balance[k] == mb[k])
    B.prove(name + '-time', got.current_time_stamp == stamp)


def scribble(B, N, sc):
    """the run goes on: everything saved is overwritten in place"""
    sc['positions'][:, 0] += 1.
    sc['mass'][:] = 0.
    sc['status_codes'][:] = 12
    sc.mass_balance['floating'] = -1.
    sc.current_time_stamp = None


def roundtrip(B):
    """save two steps, change the containers, load both: the recent one from memory, the other from its file"""
    import gnome.utilities.cache as C
    fs = Files()
    pair = B.choice('uncertain', [False, True])
    if B.symbolic:
        B.patch(C.np, 'savez', fs.savez)
        B.patch(C.np, 'load', fs.load)
    cache = ElementCache(enabled=True)
    i, j = B.choice('steps', [(0, 1), (7, 3), (999999, 1000000)])
    empty, stamped = B.choice('empty', [False, True]), B.choice('stamped', [True, False])
    saved = {}
    for s in (i, j):
        scs = [container(B, u, '%d%d' % (s == j, u), empty, T0 + secs(s) if stamped else None) for u in ([False, True] if pair else [False])]
        cache.save_timestep(s, Obj(items=lambda: [x[1] for x in scs]))
        saved[s] = [(N, {k: v.copy() for k, v in sc._data_arrays.items()}, dict(sc.mass_balance), sc.current_time_stamp) for N, sc in scs]
        for N, sc in scs:
            scribble(B, N, sc)
    for name, s in (('older', i), ('recent', j), ('recent-again', j)):
        got = cache.load_timestep(s)
        B.prove(name + '-pair', len(list(got.items())) == len(saved[s]))
        for u, g, (N, arrays, mb, stamp) in zip((False, True), got.items(), saved[s]):
            B.prove(name + '-kind', bool(g.uncertain) == u)
            same(B, name + ('-uncertain' if u else ''), N, g, arrays, mb, stamp)
            # what was loaded is the caller's own copy
            g['mass'][:] = -5.
            g.mass_balance['floating'] = -3.
    cache.rewind()
    for s in (i, j):
        try:
            cache.load_timestep(s)
            B.prove('forgotten-after-rewind', False) if not B.symbolic else None
        except CacheError:
            B.cover('forgotten')


def history(B):
    """bounded: any sequence of saves, loads, rewinds and switches, on the real files: what was saved last or a refusal"""
    cache = ElementCache(enabled=B.choice('on0', [True, True, False]))
    pair = B.bool('pair')
    kept, last = {}, None
    steps = B.choice('scale', [list(range(6)), [0, 3, 1000, 1003, 2000, 10], [999999, 1000000, 1999999, 2000000, 0, 99999]])
    many = B.int('many', lo=0, hi=10**6)
    rng = np.random.RandomState(many)
    for k in range(B.int('ops', lo=1, hi=14)):
        op = B.choice('op', ['save', 'save', 'save', 'load', 'load', 'rewind'])
        s = B.choice('s', steps)
        if op == 'save':
            scs, hold = [], []
            for u in ([False, True] if pair else [False]):
                n = rng.randint(0, 5)
                a = dict(positions=rng.uniform(-100, 100, (n, 3)), mass=rng.uniform(0, 9, n), status_codes=rng.choice([0, 2, 3, 7], n).astype(np.int16), flag=rng.rand(n) < .5,
                         age=rng.randint(0, 10**6, n).astype(np.int32))
                mb = {} if rng.rand() < .3 else dict(floating=rng.uniform(0, 9), beached=rng.uniform(0, 1e-9), evaporated=rng.uniform(1e9, 1e10))
                stamp = T0 + datetime.timedelta(seconds=int(rng.randint(0, 10**6)), microseconds=int(rng.choice([0, 0, 1, 500000, 999999])))
                sc = make_sc(B, a, None, uncertain=u)
                sc.mass_balance, sc.current_time_stamp = dict(mb), stamp
                scs.append(sc)
                hold.append(({x: v.copy() for x, v in a.items()}, mb, stamp))
            cache.save_timestep(s, Obj(items=lambda: scs))
            if not cache.enabled:
                kept = {}
            kept[s] = hold
            for sc in scs:
                for x, v in sc._data_arrays.items():
                    v[...] = ~v if v.dtype == bool else v + 1
                sc.mass_balance['floating'] = -1.
        elif op == 'rewind':
            cache.rewind()
            kept = {}
            pair, cache.enabled = B.bool('pair2'), B.bool('on2')
        else:
            try:
                got = list(cache.load_timestep(s).items())
            except CacheError:
                B.prove('held-step-is-given', s not in kept, [s, sorted(kept)])
                continue
            B.prove('missing-step-is-refused', s in kept, [s, sorted(kept)])
            if s not in kept:
                return
            B.prove('as-many-containers', len(got) == len(kept[s]), [s, len(got), len(kept[s])])
            for g, u, (a, mb, stamp) in zip(got, (False, True), kept[s]):
                B.prove('kind', bool(g.uncertain) == u)
                B.prove('names', set(g._data_arrays) == set(a), sorted(g._data_arrays))
                for x in a:
                    B.prove('array', x in g._data_arrays and g[x].dtype == a[x].dtype and np.array_equal(g[x], a[x]), [s, x])
                B.prove('balance', g.mass_balance == mb, [s, g.mass_balance, mb])
                B.prove('time', g.current_time_stamp == stamp, [s, g.current_time_stamp, stamp])


def rewound(B):
    """bounded: several runs through one cache, rewound in between, with and without uncertainty: each step of the last run only"""
    cache = ElementCache()
    for run in range(B.int('runs', lo=2, hi=3)):
        if run:
            cache.rewind()
        pair, n = B.bool('pair'), B.int('n', lo=1, hi=5)
        kept = []
        for s in range(n):
            scs = [make_sc(B, dict(mass=np.full(2, 100. * run + 10 * s + u)), None, uncertain=bool(u)) for u in range(1 + pair)]
            for sc in scs:
                sc.mass_balance, sc.current_time_stamp = {'floating': float(sc['mass'][0])}, T0 + datetime.timedelta(seconds=s)
            cache.save_timestep(s, Obj(items=lambda scs=scs: scs))
            kept.append([sc['mass'].copy() for sc in scs])
    for s in B.choice('order', [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 5, 1, 4, 3]]):
        try:
            got = list(cache.load_timestep(s).items())
        except CacheError:
            B.prove('step-of-this-run-is-given', s >= n)
            continue
        B.prove('step-not-of-this-run-is-refused', s < n, [s, n])
        if s >= n:
            return
        B.prove('the-containers-of-this-run', len(got) == len(kept[s]), [s, len(got), len(kept[s])])
        for g, u, m in zip(got, (False, True), kept[s]):
            B.prove('the-data-of-this-run', np.array_equal(g['mass'], m) and g.mass_balance == {'floating': float(m[0])} and bool(g.uncertain) == u, [s, g['mass'], m])


def whole_run(B):
    """bounded: every step of a real run, read back after the run, is what the containers held when the step was output"""
    from . import modelgen as M
    w = M.build(B, weather=B.choice('weather', [None, True]), maxsteps=5, nspill=2, backward=True)
    w.model.cache_enabled = True
    seen = []

    def after(m):
        seen.append([(({k: np.array(v) for k, v in sc._data_arrays.items()}), dict(sc.mass_balance), sc.current_time_stamp) for sc in m.spills.items()])
    M.run(w, after_step=after)
    for _ in range(B.int('reads', lo=1, hi=8)):
        s = B.int('which', lo=0, hi=len(seen) - 1)
        got = list(w.model._cache.load_timestep(s).items())
        B.prove('both-containers', len(got) == len(seen[s]))
        for g, (arrays, mb, stamp) in zip(got, seen[s]):
            B.prove('names', set(g._data_arrays) == set(arrays), '%s' % (set(g._data_arrays) ^ set(arrays)))
            for k in arrays:
                B.prove('array-' + k, g[k].dtype == arrays[k].dtype and np.array_equal(g[k], arrays[k], equal_nan=arrays[k].dtype.kind == 'f'), k)
            B.prove('balance', g.mass_balance == mb, '%s %s' % (g.mass_balance, mb))
            B.prove('time', g.current_time_stamp == stamp == w.start + secs((-w.step if w.back else w.step) * s))
    n = len(seen)
    w.model.rewind()
    for s in range(n):
        try:
            w.model._cache.load_timestep(s)
            B.prove('forgotten-after-rewind', False)
        except CacheError:
            pass


F = 'gnome.utilities.cache.ElementCache.'
HARNESSES = [
    H('roundtrip', roundtrip, conc=60, functions=[F + x for x in ('save_timestep', 'load_timestep', '_set_weathering_data', '_get_weathering_data', '_make_filename', 'rewind')]),
    H('rewound', rewound, sym=False, conc=150, functions=['ElementCache.rewind', 'ElementCache.save_timestep', 'ElementCache.load_timestep']),
    H('history', history, sym=False, conc=400, functions=[F + x for x in ('save_timestep', 'load_timestep', '_make_filename', 'rewind')]),
    H('whole_run', whole_run, sym=False, conc=60, functions=['gnome.model.Model.output_step', F + 'save_timestep', F + 'load_timestep'], conc_budget=50),
]
