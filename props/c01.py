"""C01 model clock"""
import datetime
from .common import *
from gnome.model import Model
from gnome.movers import Mover
from gnome.weatherers import HalfLifeWeatherer


def model(B, whole=True, **k):
    st = B.datetime('start', whole=True)
    dt = B.timedelta('dt', lo=1, hi=10**6, whole=True)
    D = B.timedelta('dur', lo=0, hi=10**8, whole=True) if B.symbolic else datetime.timedelta(seconds=B.int('dur', lo=0, hi=10**8, gen=lambda r: r.choice([r.randint(0, 10**8), int(B.secs(dt)) * r.randint(0, 12), 0, r.randint(0, 10**6)])))
    back = B.choice('back', [False, True])
    m = Model(start_time=st, time_step=dt, duration=D, run_backwards=back, **k)
    return m, st, dt, D, back


def idx(B, dt, name):
    """any step number (the clock stays inside the calendar)"""
    k = B.int(name, lo=0, hi=10**6, gen=lambda r: r.choice([0, 1, 2, r.randint(0, 10), r.randint(0, 1000)]))
    B.assume(k * B.secs(dt) <= 9 * 10**8)
    return k


def sgn(back):
    return -1 if back else 1


def steps(B):
    """number of steps = 1 + floor(|duration| / |step|), whichever way and in whichever order it is configured"""
    m, st, dt, D, back = model(B)
    n = m.num_time_steps
    s, d = B.secs(dt), B.secs(D)
    B.prove('last-step-within-duration', (n - 1) * s <= d)
    B.prove('no-further-step-fits', n * s > d)
    B.prove('starts-rewound', And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st))))
    B.prove('step-sign', B.close(m.time_step, sgn(back) * s))
    # reconfigure, in the middle of a run or before it
    m.current_time_step = idx(B, dt, 'mid')
    dt2 = B.timedelta('dt2', lo=1, hi=10**6, whole=True)
    m.time_step = dt2 * sgn(back)
    n, s = m.num_time_steps, B.secs(dt2)
    B.prove('retimed-last-step-within-duration', (n - 1) * s <= d)
    B.prove('retimed-no-further-step-fits', n * s > d)
    B.prove('retimed-rewound', And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st))))
    D2 = B.timedelta('dur2', lo=0, hi=10**8, whole=True)
    m.duration = D2 * sgn(back)
    n, d = m.num_time_steps, B.secs(D2)
    B.prove('new-duration-last-step-within', (n - 1) * s <= d)
    B.prove('new-duration-no-further-step', n * s > d)
    m.current_time_step = 0
    # toggle direction: same number of steps, mirrored
    m.run_backwards = not back
    B.prove('toggled-steps', And((m.num_time_steps - 1) * s <= d, m.num_time_steps * s > d))
    B.prove('toggled-sign', B.close(m.time_step, -sgn(back) * s))
    B.prove('toggled-rewound', And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st))))


def shorter(B):
    """shortening a forward run rewinds; lengthening keeps the clock where it is"""
    m, st, dt, D, back = model(B)
    B.assume(Not(back))
    k = idx(B, dt, 'k')
    B.assume(k < m.num_time_steps)
    m.current_time_step = k
    D2 = B.timedelta('dur2', lo=0, hi=10**8, whole=True)
    m.duration = D2
    B.prove('clock-consistent', Or(And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st))),
                                   And(m.current_time_step == k, B.close(B.secs(m.model_time), B.secs(st) + k * B.secs(dt)), k < m.num_time_steps)))


class Rec(Mover):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def prepare_for_model_step(self, sc, dt, t):
        self.log.append(('prep', dt, t))

    def get_move(self, sc, dt, t):
        self.log.append(('move', dt, t))
        return sc['positions'] * 0

    def model_step_is_done(self, sc=None):
        self.log.append(('done', None, None))


def one_step(B):
    """one step from any step number: the clock invariant is inductive, the step covers exactly [t, t+dt]"""
    m, st, dt, D, back = model(B)
    log, rel = [], []
    m.movers += Rec(log)
    s = B.secs(dt) * sgn(back)
    k = idx(B, dt, 'k')
    m.current_time_step = k
    B.prove('clock-at-step', B.close(B.secs(m.model_time), B.secs(st) + k * s))
    B.patch(m, 'release_elements', lambda a, b: rel.append((a, b)) or 0)
    B.patch(m.spills, 'items', lambda: [])
    acts = []
    for name in ('setup_time_step', 'move_elements', 'weather_elements', 'step_is_done'):
        B.patch(m, name, lambda name=name, f=getattr(m, name): acts.append((name, m.model_time, len(rel), m.current_time_step)) or f())
    n = m.num_time_steps
    try:
        info = m.step()
        B.cover('stepped')
        B.prove('stepped-only-before-the-end', k < n - 1)
        B.prove('counter-advances-by-one', m.current_time_step == k + 1)
        B.prove('clock-advances-by-one-step', B.close(B.secs(m.model_time), B.secs(st) + (k + 1) * s))
        B.prove('never-past-duration', (k + 1) * B.secs(dt) <= B.secs(D))
        B.prove('two-release-windows', len(rel) == 2)
        B.prove('prepared-moved-weathered-once-in-order', [x[0] for x in acts] == ['setup_time_step', 'move_elements', 'weather_elements', 'step_is_done'])
        for x in acts:
            B.prove('acts-at-the-step-start', And(B.close(B.secs(x[1]), B.secs(st) + k * s), x[3] == k, x[2] == 1))
        if len(rel) != 2:
            return
        (a, b), (c, d) = rel
        B.prove('release-windows-tile-the-step', And(B.close(B.secs(a), B.secs(st) + k * s), B.close(B.secs(b), B.secs(c)), B.close(B.secs(d), B.secs(st) + (k + 1) * s)))
        B.prove('reported-step', info['step_num'] == k + 1)
    except StopIteration:
        B.cover('stopped')
        B.prove('stops-only-at-the-end', k >= n - 1)
        B.prove('stop-leaves-clock', And(m.current_time_step == k, B.close(B.secs(m.model_time), B.secs(st) + k * s)))


def first_step(B):
    m, st, dt, D, back = model(B)
    rel = []
    B.patch(m, 'release_elements', lambda a, b: rel.append((a, b)) or 0)
    B.patch(m, 'check_inputs', lambda: ([], True))
    m.step()
    B.prove('first-step-is-time-zero', And(m.current_time_step == 0, B.close(B.secs(m.model_time), B.secs(st))))
    B.prove('one-release', len(rel) == 1)
    if len(rel) != 1:
        return
    B.prove('instantaneous-release-only', And(B.close(B.secs(rel[0][0]), B.secs(st)), B.close(B.secs(rel[0][1]), B.secs(st))))


def rewind(B):
    m, st, dt, D, back = model(B)
    m.current_time_step = idx(B, dt, 'k')
    m.rewind()
    B.prove('rewound', And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st))))
    st2 = B.datetime('start2', whole=True)
    m.current_time_step = idx(B, dt, 'k2')
    m.start_time = st2
    B.prove('new-start-rewinds', And(m.current_time_step == -1, B.close(B.secs(m.model_time), B.secs(st2))))


def substeps(B):
    """bounded: weathering sub-steps partition the step"""
    ts = B.int('ts', lo=1, hi=4000, gen=lambda r: r.choice([1, 2, 3, 5, 7, 60, 600, 900, 901, 3600, r.randint(1, 4000), r.randint(1, 40)]))
    n = B.int('n', lo=1, hi=60, gen=lambda r: r.choice([1, 2, 3, 4, 7, r.randint(1, 60)]))
    B.assume(n <= ts)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = Model(start_time='2020-01-01', time_step=ts, duration=datetime.timedelta(days=1), weathering_substeps=n)
    m.current_time_step = B.int('k', lo=0, hi=50)
    r = m._split_into_substeps()
    t = m.model_time
    for a, d in r:
        B.prove('substeps-contiguous', a == t)
        B.prove('substep-positive', d > 0)
        t = a + datetime.timedelta(seconds=d)
    B.prove('substeps-cover-the-step', t == m.model_time + datetime.timedelta(seconds=ts))
    B.prove('at-least-as-many-as-asked', len(r) >= n)


def full_run(B):
    """bounded: whole runs, forward and backward"""
    log = []
    dt = B.int('dt', lo=1, hi=7200)
    D = B.int('dur', lo=0, hi=7200 * 12, gen=lambda r: r.choice([0, 1]) if r.random() < .1 else r.randint(0, 12) * 600 + r.choice([0, 0, 1, 599]))
    B.assume(D // dt <= 60)
    back = B.choice('back', [False, True])
    st = datetime.datetime(2020, 2, 28, 23, 0, 7)
    m = Model(start_time=st, time_step=dt, duration=datetime.timedelta(seconds=D), run_backwards=back)
    m.movers += Rec(log)
    m.uncertain = B.bool('uncertain')
    released = []
    for i in range(B.int('spills', lo=0, hi=2)):
        from gnome.spills import point_line_spill
        m.spills += point_line_spill(3, (1., 2., 0.), st)
    sg = -1 if back else 1
    if B.bool('midway'):
        # reconfigured in the middle of another run
        m.duration = datetime.timedelta(seconds=3 * dt * sg)
        for _ in range(B.int('before', lo=1, hi=3)):
            m.step()
        if B.bool('new-step'):
            m.time_step = 7 * sg
        m.duration = datetime.timedelta(seconds=D * sg)
        m.time_step = dt * sg
        log.clear()
    times = []
    for info in m:
        times.append((info['step_num'], m.model_time, m.current_time_step))
    B.prove('number-of-outputs', len(times) == D // dt + 1)
    for i, (a, t, c) in enumerate(times):
        B.prove('times', a == i and c == i and t == st + datetime.timedelta(seconds=sg * i * dt))
    first = [x for x in log]
    log.clear()
    n2 = len(m.full_run())
    B.prove('second-run-identical', n2 == len(times) and log == first)
    nsc = len(list(m.spills.items()))
    starts = [st + datetime.timedelta(seconds=sg * i * dt) for i in range(len(times) - 1) for _ in range(nsc)]
    for what in ('prep', 'move'):
        acts = [x for x in log if x[0] == what]
        if what == 'move' and not len(m.spills):
            continue
        B.prove('one-%s-per-step' % what, [x[2] for x in acts] == starts and all(x[1] == sg * dt for x in acts), [what, len(acts), len(starts)])
    B.prove('one-end-per-step', len([x for x in log if x[0] == 'done']) == len(starts), [len(starts)])


def RecW(log):
    """a weatherer that only notes when it is called"""
    w = HalfLifeWeatherer()
    w.weather_elements = lambda sc, time_step, model_time: log.append((model_time, time_step, bool(sc.uncertain)))
    return w


def weathered(B):
    """bounded: every weatherer gets each step of a forward run exactly once, in contiguous sub-steps, forecast elements only"""
    import warnings
    dt = B.int('dt', lo=1, hi=4000)
    n = B.int('steps', lo=1, hi=6)
    sub = B.int('sub', lo=1, hi=20)
    B.assume(sub <= dt)
    back = B.choice('back', [False, False, True])
    st = datetime.datetime(2021, 12, 31, 23, 0, 7)
    sg = -1 if back else 1
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = Model(start_time=st, time_step=dt, duration=datetime.timedelta(seconds=dt * n), weathering_substeps=sub, uncertain=B.bool('uncertain'), run_backwards=back)
    logs = [[], []]
    for lg in logs:
        m.weatherers += RecW(lg)
    from gnome.spills import point_line_spill
    m.spills += point_line_spill(3, (1., 2., 0.), st)
    m.full_run()
    for lg in logs:
        if back:
            B.prove('no-weathering-backward', not lg)
            continue
        t = st
        for a, d, u in lg:
            B.prove('sub-steps-tile-the-run', a == t and d > 0 and not u, [a, t, d, u])
            t = a + datetime.timedelta(seconds=d)
        B.prove('whole-run-weathered', t == st + datetime.timedelta(seconds=dt * n), t)


def defaults(B):
    """bounded: a model without a time step picks one and its number of steps fits"""
    D = B.int('dur', lo=0, hi=10**5)
    st = datetime.datetime(2021, 12, 31, 23, 0, 7)
    m = Model(start_time=st, duration=datetime.timedelta(seconds=D))
    if B.bool('mover'):
        m.movers += Rec([])
    if B.bool('weatherer'):
        m.weatherers += RecW([])
    ts = [m.model_time for _ in m]
    B.prove('positive-step', m.time_step is not None and m.time_step > 0)
    B.prove('times', ts == [st + datetime.timedelta(seconds=i * m.time_step) for i in range(int(D // m.time_step) + 1)], [len(ts), m.time_step])


HARNESSES = [
    H('steps', steps, functions=['Model.__init__', 'Model._reset_num_time_steps', 'Model.time_step', 'Model.duration', 'Model.run_backwards'], conc=80),
    H('shorter', shorter, functions=['Model.duration', 'Model.current_time_step'], conc=80),
    H('one_step', one_step, functions=['Model.step', 'Model.setup_time_step', 'Model.step_is_done', 'Model.current_time_step'], covers=('stepped', 'stopped'), conc=80),
    H('first_step', first_step, functions=['Model.step', 'Model.setup_model_run'], conc=40),
    H('rewind', rewind, functions=['Model.rewind', 'Model.start_time'], conc=60),
    H('substeps', substeps, sym=False, conc=400, functions=['Model._split_into_substeps']),
    H('weathered', weathered, sym=False, conc=120, functions=['Model.weather_elements', 'Model._split_into_substeps']),
    H('defaults', defaults, sym=False, conc=40, functions=['Model.setup_model_run']),
    H('full_run', full_run, sym=False, conc=60, functions=['Model.step', 'Model.full_run', 'Model.__next__']),
]
ASSUMPTIONS = ['start time and step are whole seconds; the step is nonzero']
