"""C21 output is written exactly at the scheduled steps"""
import datetime
import os
import tempfile
import warnings
from .common import *
from .modelgen import T0, TD, secs
from gnome.outputters import Outputter


class Recorder(Outputter):
    """an outputter that writes down the step numbers the base class tells it to write"""
    def __init__(self, **k):
        super().__init__(**k)
        self.log = []

    def write_output(self, step_num, islast_step=False):
        super().write_output(step_num, islast_step)
        if self.on and self._write_step:
            self.log.append(step_num)


def configure(B):
    """any schedule: (outputter, kind of start time, single step only?, period or None, offset of the start time in seconds)"""
    kind = B.choice('start', ['none', 'model-start', 'later'])
    per = B.choice('period', ['every', 'timed'])
    single = B.choice('single', [False, True])
    o = Recorder(output_zero_step=B.bool('zero'), output_last_step=B.bool('last'), output_single_step=single)
    T = None
    if per == 'timed':
        T = B.int('T', lo=1, hi=10**6, gen=lambda r: r.choice([1, 60, 900, 1200, 3600, r.randint(1, 5000)]))
        poke(o, _output_timestep=T)
    A = B.int('A', lo=1, hi=10**7, gen=lambda r: r.choice([900, 1800, 3600, r.randint(1, 20000)]))
    return o, kind, single, T, A


def flag(B, x):
    import z3
    return x if not B.symbolic or isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))


def eq(B, a, b):
    return flag(B, a) == flag(B, b) if B.symbolic else bool(a) == bool(b)


def step(B):
    """one step from any reachable state of the schedule: written if and only if due, and the state stays reachable"""
    sign = B.choice('sign', [1, -1])
    s = B.int('s', lo=1, hi=86400, gen=lambda r: r.choice([60, 900, 3600, r.randint(1, 5000)]))
    o, kind, single, T, A = configure(B)
    start = B.datetime('start', whole=True)
    k = B.int('k', lo=0, hi=10**4, gen=lambda r: r.randint(0, 12))                   # steps already taken
    elapsed = B.int('elapsed', lo=0, gen=lambda r: r.randint(0, 12) * r.choice([900, 3600, 1]))     # the time they took
    poke(o, _model_start_time=start)
    o.cache = Obj(recent={})
    if kind == 'model-start':
        o.output_start_time = start
    elif kind == 'later':
        o.output_start_time = start + td(B, A * sign)
    o._single_output_at_start = single and kind != 'later'
    poke(o, _write_step=B.bool('stale'))
    if kind == 'later':
        if B.choice('reached', [False, True]):
            base = B.int('base', lo=0, gen=lambda r: A + r.randint(0, s - 1))         # when output began: the first step at or after the start time
            B.assume(And(base - s < A, A <= base, base <= elapsed))
            poke(o, _is_first_output=False)
        else:
            B.assume(elapsed < A)
            base = None
            poke(o, _is_first_output=True)
    else:
        base = 0
        poke(o, _is_first_output=True)
    poke(o, _dt_since_lastoutput=0)
    timed = not single and T is not None and base is not None
    if timed:
        # invariant: the time since output began, modulo the period
        d = B.int('d', lo=0, gen=lambda r: r.randint(0, T - 1))
        B.assume(d < T)
        poke(o, _dt_since_lastoutput=d * sign)
    o.prepare_for_model_step(s * sign, start + td(B, elapsed * sign))
    last = B.bool('islast')
    o.write_output(k + 1, last)
    if base is None:
        due = elapsed + s >= A
        B.prove('start-time-remembered', eq(B, o._is_first_output, Not(due)))
        B.prove('count-starts-at-the-start-time', o._dt_since_lastoutput == 0)
    elif single:
        due = False
    elif T is None:
        due = True
    else:
        due = d + s >= T
        B.prove('remainder-kept', o._dt_since_lastoutput * sign == (d + s) % T)
    want = Or(due, And(last, o.output_last_step))
    B.prove('written-iff-due', eq(B, o._write_step, want))


def begin(B):
    """the beginning of a run: the zero step, whatever happened before"""
    o, kind, single, T, A = configure(B)
    sign = B.choice('sign', [1, -1])
    start = B.datetime('start', whole=True)
    if kind == 'model-start':
        o.output_start_time = start
    elif kind == 'later':
        o.output_start_time = start + td(B, A * sign)
    warnings.simplefilter('ignore')
    o.prepare_for_model_run(model_start_time=start, spills=None, model_time_step=B.int('s', lo=1, hi=86400) * sign, cache=Obj(recent={}))
    B.prove('count-starts-at-zero', o._dt_since_lastoutput == 0)
    B.prove('first-output-still-to-come', bool(o._is_first_output))
    o.write_output(0)
    want = Or(o.output_zero_step, single and kind != 'later')
    B.prove('zero-step-written-iff-asked-for', eq(B, o._write_step, want))


def oracle(n, step, zero, last, single, start, T):
    """step numbers to be written out of steps 0..n-1; start and T in seconds (start None: from the beginning)"""
    out = []
    base = 0 if not start else -(-start // step)
    for i in range(n):
        if i == 0:
            w = zero or (single and not start)
        elif i < base:
            w = False
        elif i == base:
            w = True
        elif single:
            w = False
        elif T is None:
            w = True
        else:
            w = (i - base) * step // T > (i - 1 - base) * step // T
        if i == n - 1 and last:
            w = True
        if w:
            out.append(i)
    return out


def whole_run(B):
    """bounded: a recorder in a real model run, forward and backward, then written again from the cache"""
    from gnome.model import Model
    from gnome.spills import point_line_spill
    warnings.simplefilter('ignore')
    sign = B.choice('sign', [1, 1, -1])
    st = B.choice('step', [60, 900, 901, 3600])
    n = B.int('n', lo=1, hi=8)
    t = T0
    start = B.choice('st', [None, 0, st, st * 2, st * 2 + 1, st // 2, B.int('x', lo=1, hi=st * 6)])
    T = B.choice('T', [None, st, st * 2, st * 3, st + st // 3, st // 2, B.int('tt', lo=1, hi=st * 4)])
    if T and B.choice('long', [False, False, True]):
        st, T = st * 48, T * 48            # intervals of more than a day
        start = start and start * 48
    kw = dict(output_zero_step=B.bool('zero'), output_last_step=B.bool('last'), output_single_step=B.choice('single', [False, False, True]))
    if start is not None:
        kw['output_start_time'] = t + secs(start * sign)
    if T:
        kw['output_timestep'] = secs(T)
    if sign < 0 and B.bool('by_flag'):
        m = Model(start_time=t, time_step=st, duration=secs(st * n), cache_enabled=True, run_backwards=True)
    else:
        m = Model(start_time=t, time_step=st * sign, duration=secs(st * n * sign), cache_enabled=True)
    m.spills += point_line_spill(2, (0., 0., 0.), t)
    r = Recorder(**kw)
    m.outputters += r
    want = oracle(m.num_time_steps, st, kw['output_zero_step'], kw['output_last_step'], kw['output_single_step'], start, T)
    m.full_run()
    B.prove('written-steps', r.log == want, 'written %s, scheduled %s' % (r.log, want))
    r.log = []
    if B.bool('again'):
        m.full_run()
        B.prove('second-run-same-steps', r.log == want, 'written %s, scheduled %s' % (r.log, want))
        r.log = []
    r2 = r if B.bool('same-one') else Recorder(**kw)
    r2.rewind() if B.bool('rewound') else None
    r2.write_output_post_run(model_start_time=m.start_time, model_time_step=m.time_step, num_time_steps=m.num_time_steps, cache=m._cache)
    B.prove('written-from-the-cache-same-steps', r2.log == want, 'written %s, scheduled %s' % (r2.log, want))


def iso(t):
    return t if isinstance(t, str) else t.isoformat()


def switched_off(B):
    """bounded: an outputter that is off writes nothing; one that is on writes the scheduled steps with their own times"""
    from gnome.model import Model
    from gnome.spills import point_line_spill
    from gnome.outputters import TrajectoryGeoJsonOutput, WeatheringOutput, SpillJsonOutput
    from gnome.outputters.memory_outputter import MemoryOutputter
    warnings.simplefilter('ignore')
    st, n = 900, B.int('n', lo=1, hi=5)
    on = B.bool('on')
    T = B.choice('T', [None, 1800, 1200])
    kw = dict(on=on, output_zero_step=B.bool('zero'), output_last_step=B.bool('last'))
    if T:
        kw['output_timestep'] = secs(T)
    d = tempfile.mkdtemp(prefix='c21_')
    try:
        C = B.choice('cls', [MemoryOutputter, TrajectoryGeoJsonOutput, WeatheringOutput, SpillJsonOutput])
        if C in (WeatheringOutput, TrajectoryGeoJsonOutput) and B.bool('files'):
            kw['output_dir'] = d
        o = C(**kw)
        m = Model(start_time=T0, time_step=st, duration=secs(st * n))
        m.spills += point_line_spill(3, (0., 0., 0.), T0)
        m.outputters += o
        infos = m.full_run()
        want = oracle(n + 1, st, kw['output_zero_step'], kw['output_last_step'], False, None, T) if on else []
        got = [i['step_num'] for i in infos if C.__name__ in i]
        if C is not MemoryOutputter:
            B.prove('steps-written', got == want, '%s wrote %s, scheduled %s' % (C.__name__, got, want))
        for i in infos:
            w = i.get(C.__name__)
            if w and 'time_stamp' in w:
                B.prove('time-stamp', iso(w['time_stamp']).startswith((T0 + secs(st * i['step_num'])).isoformat()[:16]), str(w['time_stamp']))
        if not on:
            B.prove('no-files-when-off', not os.listdir(d), str(os.listdir(d)))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


F = 'gnome.outputters.outputter.Outputter.'
HARNESSES = [
    H('step', step, conc=400, functions=[F + 'prepare_for_model_step', F + 'write_output'], budget=240),
    H('begin', begin, conc=100, functions=[F + 'prepare_for_model_run', F + 'rewind', F + 'write_output']),
    H('whole_run', whole_run, sym=False, conc=250, functions=[F + 'write_output_post_run', 'gnome.model.Model.write_output', 'gnome.model.Model.output_step']),
    H('switched_off', switched_off, sym=False, conc=60, functions=['gnome.outputters: concrete outputters']),
]
