"""C28 a rewound model repeats its run; running does not depend on who watches"""
from .common import *
from . import modelgen as M
from .modelgen import secs, Obs
from gnome.utilities import rand


def compare(B, name, one, two, skip=()):
    B.prove(name + '-steps', len(one) == len(two), '%d %d' % (len(one), len(two)))
    for s, (a, b) in enumerate(zip(one, two)):
        B.prove(name + '-containers', len(a) == len(b))
        for x, y in zip(a, b):
            B.prove(name + '-arrays', set(x.a) == set(y.a), '%s' % (set(x.a) ^ set(y.a)))
            for k in x.a:
                if k in skip:
                    continue
                B.prove('%s-%s' % (name, k), x[k].dtype == y[k].dtype and np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == 'f'),
                        'step %d: %s %s' % (s, x[k].tolist()[:5], y[k].tolist()[:5]))
            B.prove(name + '-balance', same_mb(x.mb, y.mb), 'step %d: %s %s' % (s, x.mb, y.mb))


def same_mb(a, b):
    return set(a) == set(b) and all(a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]) for k in a)


def some_run(B, w, kind, seed):
    """a run of the given kind after a rewind, whatever was drawn before in this process (rewinding seeds the streams)"""
    import random
    if B.bool('own'):
        rand.seed(seed)
    np.random.random(B.int('drawn', lo=0, hi=7))
    for _ in range(B.int('drawn2', lo=0, hi=3)):
        random.random()
    m = w.model
    if kind == 'step':
        out = M.run(w)
        for sc, last in zip(m.spills.items(), out[-1]):
            B.prove('the-end-stays', all(np.array_equal(sc[k], last[k], equal_nan=last[k].dtype.kind == 'f') for k in last.a) and same_mb(sc.mass_balance, last.mb))
        return out
    m.rewind()
    out = []
    if kind == 'iter':
        for _ in m:
            out.append([Obs(sc) for sc in m.spills.items()])
    elif kind == 'cut':
        for _ in range(B.int('cut', lo=1, hi=w.n)):
            m.step()
        return None
    return out


def repeat(B):
    """bounded: any model, run completely or in part before, repeats its run after rewinding and seeding"""
    w = M.build(B, weather=B.choice('weather', [None, None, True]), maxsteps=6, backward=True)
    seed = B.int('seed2', lo=1, hi=10**6)
    first = some_run(B, w, 'step', seed)
    for k in range(B.int('times', lo=1, hi=3)):
        kind = B.choice('how', ['step', 'iter', 'cut'])
        got = some_run(B, w, kind, seed)
        if got is not None:
            compare(B, 'again', first, got)


class Tape:
    """the choices a model was built with, to be made once more"""
    def __init__(self, B):
        self.B, self.tape, self.at = B, [], None

    def _next(self, make):
        if self.at is None:
            self.tape.append(make())
            return self.tape[-1]
        self.at += 1
        return self.tape[self.at - 1]

    def int(self, *a, **k):
        return self._next(lambda: self.B.int(*a, **k))

    def real(self, *a, **k):
        return self._next(lambda: self.B.real(*a, **k))

    def bool(self, *a, **k):
        return self._next(lambda: self.B.bool(*a, **k))

    def choice(self, name, opts, **k):
        return opts[self._next(lambda: self.B.choice(name + '#', list(range(len(opts))), **k))]


def afresh(B):
    """bounded: a model built afresh from the same settings runs alike, whatever ran before in the same process"""
    t = Tape(B)
    weather = B.choice('weather', [None, None, True])
    first_w = M.build(t, weather=weather, maxsteps=6)
    first = some_run(B, first_w, 'step', 5)
    if B.bool('other'):
        some_run(B, M.build(B, weather=B.choice('weather2', [None, True]), maxsteps=4), B.choice('how', ['step', 'cut']), 5)
    t.at = 0
    w = M.build(t, weather=weather, maxsteps=6)
    compare(B, 'afresh', first, some_run(B, w, 'step', 5))
    if B.bool('both'):
        compare(B, 'the-first-again', first, some_run(B, first_w, 'step', 5))


def watched(B):
    """bounded: caching and outputters do not change the run"""
    import tempfile
    from gnome.outputters import WeatheringOutput, TrajectoryGeoJsonOutput
    w = M.build(B, weather=B.choice('weather', [None, True]), maxsteps=6)
    seed = B.int('seed2', lo=1, hi=10**6)
    first = some_run(B, w, 'step', seed)
    m = w.model
    m.cache_enabled = B.bool('cache')
    if B.bool('geojson'):
        m.outputters += TrajectoryGeoJsonOutput(output_timestep=secs(w.step * B.choice('every', [1, 2])))
    if w.weather and B.bool('weathering'):
        m.outputters += WeatheringOutput()
    compare(B, 'watched', first, some_run(B, w, 'step', seed))


def rebuilt(B):
    """bounded: changing a setting and changing it back, or adding and removing a mover, leaves the run as it was"""
    from gnome.movers import SimpleMover, RandomMover
    w = M.build(B, weather=B.choice('weather', [None, None, True]), maxsteps=5)
    seed = B.int('seed2', lo=1, hi=10**6)
    first = some_run(B, w, 'step', seed)
    m = w.model
    for _ in range(B.int('changes', lo=1, hi=3)):
        k = B.choice('change', ['mover', 'time', 'step', 'uncertain', 'spill', 'off'])
        if k == 'mover':
            mv = B.choice('mv', [SimpleMover, RandomMover])
            mv = mv((1., 1., 0.)) if mv is SimpleMover else mv()
            m.movers += mv
            some_run(B, w, 'cut', seed)
            m.movers.remove(mv.id)
        elif k == 'time':
            old = m.start_time
            m.start_time = old + secs(B.choice('by', [3600, -7200, 31]))
            m.start_time = old
        elif k == 'step':
            old, dur = m.time_step, m.duration
            m.time_step = B.choice('ts', [30, 900, 7200])
            m.time_step = old
            m.duration = dur
        elif k == 'uncertain':
            m.uncertain = not m.uncertain
            some_run(B, w, 'cut', seed)
            m.uncertain = not m.uncertain
        elif k == 'spill':
            from gnome.spills import point_line_spill
            p = w.where()
            s = point_line_spill(5, (p[0], p[1], 0.), w.start, substance=w.oil if w.weather else w.sub, amount=5, units='kg')
            m.spills += s
            some_run(B, w, 'cut', seed)
            m.spills.remove(s.id)
        elif w.movers:
            mv = w.movers[0]
            was = mv.on
            mv.on = not was
            some_run(B, w, 'cut', seed)
            mv.on = was
    compare(B, 'after-changes', first, some_run(B, w, 'step', seed))


HARNESSES = [
    H('repeat', repeat, sym=False, conc=120, functions=['gnome.model.Model.rewind', 'gnome.spill_container.SpillContainerPair.rewind', '*.rewind of movers, weatherers, maps, releases'], conc_budget=60),
    H('afresh', afresh, sym=False, conc=80, functions=['gnome.model.Model', 'module and class state'], conc_budget=50),
    H('watched', watched, sym=False, conc=60, functions=['gnome.model.Model.output_step'], conc_budget=40),
    H('rebuilt', rebuilt, sym=False, conc=120, functions=['gnome.model.Model setters', 'collection callbacks'], conc_budget=60),
]
