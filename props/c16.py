"""C16 time series: what comes out between, at and outside the data is what went in"""
import datetime
import math
import os
import tempfile
import warnings
from .common import *
from .modelgen import T0, secs
from pyvc import cint
from pyvc.terms import Sym
import gridded
from gnome.basic_types import datetime_value_2d
from gnome.environment import Wind
from gnome.environment.wind import constant_wind, wind_from_values
from gnome.environment.running_average import RunningAverage
from gnome.environment.timeseries_objects_base import TimeseriesData, TimeseriesVector
from gnome.utilities.timeseries import Timeseries, TimeseriesError
from gnome.utilities.time_utils import TZOffset
import gnome.environment.timeseries_objects_base as TB

FACTOR = {'m/s': 1.0, 'knots': 0.514444, 'cm/s': 0.01, 'km/h': 0.277777, 'meter per second': 1.0, 'kilometer per hour': 0.277777}


class STime(gridded.time.Time):
    """contract of the time axis: ascending times; index_of is the first index whose time is not before t, interp_alpha the fraction of the way there"""
    def __init__(self, B, N, t):
        self.B, self.N, self.t, self.memo = B, N, t, {}

    def _sym_len_(self):
        return self.N.n if hasattr(self.N, 'n') else self.N

    def __len__(self):
        return len(self.t)

    @property
    def min_time(self):
        return self.B.at(self.t, 0)

    @property
    def max_time(self):
        return self.B.at(self.t, self._sym_len_() - 1) if self.B.symbolic else self.t[-1]

    def valid_time(self, x):
        if x < self.min_time or x > self.max_time:
            raise gridded.time.OutOfTimeRangeError('outside')

    def index_of(self, x, extrapolate=False):
        if not extrapolate:
            self.valid_time(x)
        B = self.B
        if not B.symbolic:
            return int(np.searchsorted(self.t, x))
        if not self.memo:
            k, n = B.int('k', lo=0), self._sym_len_()
            B.assume(k <= n)
            B.assume(Or(k == 0, And(k - 1 < n, k >= 1, B.at(self.t, Ite(k >= 1, k - 1, 0)) < x)))
            B.assume(Or(k == n, And(k < n, x <= B.at(self.t, Ite(k < n, k, 0)))))
            B.assume(Or(k == 0, k == n, B.at(self.t, Ite(k >= 1, k - 1, 0)) < B.at(self.t, Ite(k < n, k, 0))))
            self.memo['k'] = k
        return self.memo['k']

    def interp_alpha(self, x, extrapolate=False):
        k, n = self.index_of(x, extrapolate), self._sym_len_() if self.B.symbolic else len(self.t)
        if k > n - 1:
            return 1
        if k == 0:
            return 0
        return (x - self.B.at(self.t, k - 1)) / (self.B.at(self.t, k) - self.B.at(self.t, k - 1))


def series(B, tag='', units=None):
    N = B.dim('N', 1)
    d = B.array('d' + tag, (N,), lo=-50, hi=50)
    return N, d


def axis(B, N):
    t = B.array('t', (N,), lo=0, hi=1e6)
    if B.symbolic:
        n = N.n
        B.assume_forall((N,), lambda i: And(B.at(t, 0) <= B.at(t, i), B.at(t, i) <= B.at(t, n - 1)))
    else:
        t = np.sort(t)
        B.assume(len(set(t.tolist())) == len(t))
    return t


def interpolation(B):
    """any data on any ascending times: linear in between, clamped or refused outside, converted to the units asked for"""
    N = B.dim('N', 1)
    d = B.array('d', (N,), lo=-50, hi=50)
    t = axis(B, N)
    keep = d.copy()
    own, allow, asked = B.choice('units', [None, 'knots']), B.bool('allow'), B.bool('asked')
    if not own:
        want_unit = None
    else:
        want_unit = B.choice('want', [None, 'm/s', 'knots'])
    points = B.choice('points', ['none', 'some'])
    M = B.dim('M', 1)
    P = B.array('P', (M, 3), lo=-90, hi=90)
    T = STime(B, N, t)
    if B.symbolic:
        B.patch(TB, '_reorganize_spatial_data', lambda p: p)
        B.patch(TB, '_align_results_to_spatial_data', lambda r, p: r)
    s = TimeseriesData(data=d, time=T, units=own, extrapolate=allow)
    x = B.real('x', lo=-1e6, hi=2e6, gen=lambda r: r.choice([float(v) for v in t] + [r.uniform(-1e6, 2e6), r.uniform(0, 1e6)]) if not B.symbolic else 0.)
    n = T._sym_len_() if B.symbolic else len(t)
    inside = And(x >= T.min_time, x <= T.max_time)
    kw = {'units': want_unit} if want_unit else {}
    try:
        out = s.at(None if points == 'none' else P, x, extrapolate=asked, **kw)
    except ValueError:
        B.prove('refused-only-outside-without-extrapolation', And(Not(inside), Not(allow), Not(asked), n != 1))
        return
    B.prove('outside-only-when-allowed', Or(inside, allow, asked, n == 1))
    f = FACTOR['knots'] if want_unit == 'm/s' else 1.

    def right(v):
        if not B.symbolic:
            return B.close(v, float(np.interp(x, t, keep)) * f, 1e-9)
        k = T.index_of(x, True)
        tk, tp = B.at(t, Ite(k < n, k, 0)), B.at(t, Ite(And(k >= 1, k < n), k - 1, 0))
        dk, dp = B.at(keep, Ite(k < n, k, 0)), B.at(keep, Ite(And(k >= 1, k < n), k - 1, 0))
        mid = And((v - dp * f) * (tk - tp) - (dk - dp) * f * (x - tp) <= 1e-4, (v - dp * f) * (tk - tp) - (dk - dp) * f * (x - tp) >= -1e-4)
        return And(Implies(n == 1, B.close(v, keep[0] * f)), Implies(And(n != 1, x <= T.min_time), B.close(v, keep[0] * f)),
                   Implies(And(n != 1, x > T.max_time), B.close(v, B.at(keep, n - 1) * f)), Implies(And(n != 1, x > T.min_time, x <= T.max_time), mid))
    if points == 'none':
        if not B.symbolic:
            out = np.asarray(out).reshape(-1)[0]
        elif hasattr(out, 'shape') and len(out.shape):
            out = out[0]
        B.prove('value', right(out))
    else:
        B.forall('value-at-every-point', (M,), lambda i: right(B.at(out, i, 0)))
    B.forall('data-kept', (N,), lambda i: B.at(d, i) == B.at(keep, i))


def compiled(B):
    """OSSMTimeValue_c::GetTimeValue (search, interpolation, clamping), any number of ascending times: at a data time its value, in
    between the linear interpolation (values closer than the tolerance count as equal), outside the nearest end or an error"""
    if not B.symbolic:
        return generic(B)
    N = B.dim('N', 1)
    n = N.n
    tm = B.array('tm', (N,), dtype=np.int64, lo=0, hi=4 * 10**9)
    u, v = B.array('u', (N,), lo=-1000, hi=1000), B.array('v', (N,), lo=-1000, hi=1000)
    t = B.int('t', lo=0, hi=4 * 10**9)
    K = B.int('K', lo=0)
    B.assume(K < n)
    K1 = Ite(K + 1 < n, K + 1, K)
    allow = B.choice('extrapolate', [0, 1])
    special = [0, n - 1, K, K1]

    def ascending(i):
        # the precondition (times ascend, pairwise) for the index read and the ones the contract talks about
        B.assume(Implies(i >= 1, B.at(tm, Ite(i >= 1, i - 1, 0)) < B.at(tm, i)))
        for k in special:
            B.assume(And(Implies(i < k, B.at(tm, i) < B.at(tm, k)), Implies(k < i, B.at(tm, k) < B.at(tm, i)), Implies(i == k, B.at(tm, i) == B.at(tm, k))))

    def pair(i):
        B.prove('reads-inside-the-series', And(i >= 0, i < n))
        ascending(i)
        return cint.Struct(time=B.at(tm, i), value=cint.Struct(u=B.at(u, i), v=B.at(v, i)))
    for k in special:
        ascending(k)

    def change(a, b, dt):
        return it.call('OSSMTimeValue_c::GetTimeChange', a, b, dt)

    def search(L):
        a, b = L.startIndex, L.endIndex
        return [('range', And(a >= 0, a <= n - 1, b <= n - 1)), ('after-all-before', Or(a == 0, B.at(tm, Ite(a >= 1, a - 1, 0)) < t_(L)))]

    def t_(L):
        return L.forTime

    def walk(L):
        i = L.i
        return [('range', And(i >= 0, i <= n)), ('after-all-before', Or(i == 0, B.at(tm, Ite(i >= 1, i - 1, 0)) < t_(L)))]
    fresh = lambda nm: B.int(nm)
    this = cint.Struct(timeValues=cint.Cell(cint.Arr(pair)), extrapolationIsAllowed=allow, fInterpolationType=cint.constants('OSSMTimeValue_c.h', 'LINEAR')['LINEAR'])
    this.cls = 'OSSMTimeValue_c'
    uorv = lambda vec, k: (vec.get() if isinstance(vec, cint.Ref) else vec).u if (k.get() if isinstance(k, cint.Ref) else k) == 0 else (vec.get() if isinstance(vec, cint.Ref) else vec).v
    it = cint.Interp(B, 'OSSMTimeValue_c.cpp', this=this, contracts={'GetNumValues': lambda *a: n, '_GetHandleSize': lambda *a: 32 * n, 'UorV': uorv}, consts=cint.constants('OSSMTimeValue_c.h', 'LINEAR', 'HERMITE'),
                     loops={0: cint.Invariant('search', search, fresh, variant=lambda L: L.endIndex - L.startIndex), 1: cint.Invariant('walk', walk, fresh, variant=lambda L: n - L.i)})
    out = cint.Struct(u=0., v=0.)
    err = it.call('OSSMTimeValue_c::GetTimeValue', t, cint.Cell(out))
    first, last = B.at(tm, 0), B.at(tm, n - 1)
    outside = And(n != 1, Or(t < first, t > last))
    B.prove('refused-exactly-outside-without-extrapolation', (err != 0) == And(outside, allow == 0) if isinstance(err, Sym) else (Not(And(outside, allow == 0)) if err == 0 else And(outside, allow == 0)))
    if (bool(err != 0) if isinstance(err, Sym) else err != 0):
        return
    tol = cint.constants('', 'TIMEVALUE_TOLERANCE')['TIMEVALUE_TOLERANCE']
    for got, d in ((out.u, u), (out.v, v)):
        B.prove('single-value-for-all-times', Implies(n == 1, got == B.at(d, 0)))
        B.prove('nearest-end-outside', And(Implies(And(n != 1, t < first), B.close(got, B.at(d, 0), 1e-9)), Implies(And(n != 1, t > last), B.close(got, B.at(d, n - 1), 1e-9))))
        B.prove('data-time-gives-its-value', Implies(And(n != 1, t == B.at(tm, K)), Or(B.close(got, B.at(d, K), 1e-9))))
        t0, t1, d0, d1 = B.at(tm, K), B.at(tm, K1), B.at(d, K), B.at(d, K1)
        flat = And(d1 - d0 < tol, d0 - d1 < tol, Or(got == d1, got == d0))
        exact = (got - d0) * (t1 - t0) == (d1 - d0) * (t - t0)
        B.prove('linear-in-between', Implies(And(n != 1, K + 1 < n, t > t0, t < t1), Or(exact, flat)))


# --- winds (compiled time series): bounded --------------------------------------------------
def uv_of(r, th):
    a = math.radians(th)
    return -r * math.sin(a), -r * math.cos(a)


def rth_of(u, v):
    r = math.hypot(u, v)
    th = math.degrees(math.atan2(-u, -v)) % 360. if r else 0.
    return r, th


def same_angle(a, b, tol=1e-2):
    d = abs(a - b) % 360.
    return min(d, 360. - d) < tol


def near(a, b, scale=1.):
    """the compiled interpolation works with slope * seconds since 1970, good to 1e-6 of the largest value"""
    return abs(a - b) <= 1e-8 + 1e-9 * abs(b) + 2e-6 * scale


def wind_case(B, nmin=1):
    n = B.int('n', lo=nmin, hi=6)
    unit = B.choice('unit', list(FACTOR))
    cs = B.choice('cs', ['r-theta', 'uv'])
    t, times = 0, []
    for _ in range(n):
        times.append(T0 + secs(t))
        t += B.choice('gap', [60, 3600, 10800, 86400, 777])
    vals = []
    for _ in range(n):
        if cs == 'uv':
            vals.append((B.choice('u', [0., 1., 1.003, -3.5, 20.]), B.choice('v', [0., 2., 2.004, -7.25, 11.])))
        else:
            vals.append((B.choice('r', [0., 1., 5.5, 40.]), B.choice('th', [0., 30., 90., 180., 270., 359.5, 360.])))
    arr = np.array(list(zip(times, vals)), dtype=datetime_value_2d)
    f = FACTOR[unit]
    uv = [(v[0] * f, v[1] * f) if cs == 'uv' else uv_of(v[0] * f, v[1]) for v in vals]
    return n, unit, cs, times, vals, arr, uv


def uv_at(times, uv, t, extrapolate):
    if len(times) == 1:
        return uv[0]
    if t < times[0] or t > times[-1]:
        return (uv[0] if t < times[0] else uv[-1]) if extrapolate else None
    for i in range(len(times) - 1):
        if times[i] <= t <= times[i + 1]:
            a = (t - times[i]).total_seconds() / (times[i + 1] - times[i]).total_seconds()
            return tuple(uv[i][k] + a * (uv[i + 1][k] - uv[i][k]) for k in (0, 1))


def query_times(B, times):
    out = []
    for _ in range(4):
        i = B.int('qi', lo=0, hi=len(times) - 1)
        out.append(times[i] + secs(B.choice('qo', [0, 0, 1, -1, 1800, 30, -400, 100000, -100000])))
    return out


def check_wind(B, w, times, uv, tag):
    for t in query_times(B, times):
        ext = B.choice('ext', [None, True, False])
        allowed = w.extrapolation_is_allowed if ext is None else ext
        want = uv_at(times, uv, t, allowed)
        npt = B.int('pts', lo=1, hi=3)
        pts = np.zeros((npt, 3))
        un = B.choice('un', [None] + list(FACTOR))
        cs = B.choice('ocs', ['uv', 'r-theta', 'u', 'v', 'r', 'theta'])
        before = w.extrapolation_is_allowed
        try:
            got = w.at(pts, t, units=un, extrapolate=ext, coord_sys=cs)
        except ValueError:
            B.prove(tag + '-refused-only-outside', want is None, '%s in %s' % (t, times))
            continue
        finally:
            B.prove(tag + '-extrapolation-setting-kept', w.extrapolation_is_allowed == before)
        if want is None:
            B.prove(tag + '-outside-refused', False, '%s in %s' % (t, times))
        f = 1. / FACTOR[un] if un else 1.
        u, v = want[0] * f, want[1] * f
        r, th = rth_of(u, v)
        g = np.asarray(got).reshape(npt, -1)
        sc = max(math.hypot(*x) for x in uv) * f
        calm = 1e-2 * sc
        for row in g:
            ok = {'uv': lambda: near(row[0], u, sc) and near(row[1], v, sc), 'u': lambda: near(row[0], u, sc), 'v': lambda: near(row[0], v, sc), 'r': lambda: near(row[0], r, sc),
                  'theta': lambda: r <= calm or same_angle(row[0], th), 'r-theta': lambda: near(row[0], r, sc) and (r <= calm or same_angle(row[1], th))}[cs]()
            B.prove(tag + '-at', ok, '%s %s at %s: %s, expected uv %s' % (cs, un, t, row, (u, v)))
    t = times[B.int('gi', lo=0, hi=len(times) - 1)]
    r, th = w.get_value(t)
    R, TH = rth_of(*uv_at(times, uv, t, True))
    B.prove(tag + '-get_value', near(r, R) and (R < 1e-9 or same_angle(th, TH)), '%s %s' % ((r, th), (R, TH)))


def check_series(B, w, times, uv, tag):
    """the whole series, in the wind's own units and others, both ways"""
    own = FACTOR[w.units]
    ts = w.timeseries
    B.prove(tag + '-timeseries-times', ts['time'].astype(datetime.datetime).tolist() == times)
    for (r, th), (u, v) in zip(ts['value'], uv):
        R, TH = rth_of(u / own, v / own)
        B.prove(tag + '-timeseries', near(r, R) and (R < 1e-9 or same_angle(th, TH)), '%s %s' % ((r, th), (R, TH)))
    for un, cs in [(None, 'uv'), ('knots', 'uv'), ('m/s', 'r-theta'), ('cm/s', 'r-theta')]:
        d = w.get_wind_data(units=un, coord_sys=cs)
        f = 1. / (FACTOR[un] if un else own)
        B.prove(tag + '-data-times', d['time'].astype(datetime.datetime).tolist() == times)
        for (a, b), (u, v) in zip(d['value'], uv):
            R, TH = rth_of(u * f, v * f)
            B.prove(tag + '-data', (near(a, u * f) and near(b, v * f)) if cs == 'uv' else near(a, R) and (R < 1e-9 or same_angle(b, TH)), '%s %s' % (un, cs))
        d['value'][:] = 99.
    B.prove(tag + '-limits', w.data_start == times[0] and w.data_stop == times[-1])
    B.prove(tag + '-length', len(w) == len(times))
    B.prove(tag + '-time-axis', list(w.time.data) == times)


def winds(B):
    """bounded: a wind from values in any unit and coordinate system"""
    n, unit, cs, times, vals, arr, uv = wind_case(B)
    keep = arr.copy()
    form = B.choice('form', ['array', 'list', 'file-free'])
    if form == 'list':
        w = Wind(timeseries=list(zip(times, vals)), units=unit, coord_sys=cs)
    elif form == 'file-free' and cs == 'r-theta':
        w = wind_from_values([(t,) + v for t, v in zip(times, vals)], units=unit)
    else:
        w = Wind(timeseries=arr, units=unit, coord_sys=cs)
    w.extrapolation_is_allowed = B.bool('allow')
    check_series(B, w, times, uv, 'new')
    check_wind(B, w, times, uv, 'new')
    B.prove('caller-data-kept', (arr == keep).all())
    for _ in range(B.int('changes', lo=0, hi=3)):
        k = B.choice('change', ['data', 'units', 'timeseries', 'zone', 'dict'])
        if k == 'data':
            n, unit, cs, times, vals, arr, uv = wind_case(B)
            keep = arr.copy()
            w.set_wind_data(arr, unit, cs)
            B.prove('caller-data-kept', (arr == keep).all())
            check_series(B, w, times, uv, 'set')
        elif k == 'timeseries':
            n, unit, cs, times, vals, arr, uv = wind_case(B)
            if cs == 'r-theta':
                f = FACTOR[w.units]
                uv = [uv_of(v[0] * f, v[1]) for v in vals]
                w.timeseries = arr
            else:
                w.set_wind_data(arr, unit, 'uv')
            check_series(B, w, times, uv, 'assigned')
        elif k == 'dict':
            # as a client sends it: the new series in the new units
            n, unit, cs, times, vals, arr, uv = wind_case(B)
            unit = B.choice('short', ['m/s', 'knots', 'cm/s'])
            vals = [v if cs == 'r-theta' else (abs(v[0]), 45.) for v in vals]
            uv = [uv_of(v[0] * FACTOR[unit], v[1]) for v in vals]
            w.update_from_dict({'units': unit, 'timeseries': [[t.isoformat(), list(v)] for t, v in zip(times, vals)]})
            B.prove('units-updated', w.units == unit)
            check_series(B, w, times, uv, 'updated')
        elif k == 'zone':
            a, b = B.choice('za', [None, 0, -8, 5.5]), B.choice('zb', [None, 0, -5, 3.75])
            cur = w.timezone_offset
            for z in (a, b):
                old = w.timezone_offset.offset
                w.timezone_offset = TZOffset(z, 'zone')
                if old is not None and z is not None:
                    times = [t + secs(round((z - old) * 3600)) for t in times]
                    # reconverted from the displayed series
            check_series(B, w, times, uv, 'zone')
        else:
            held = w.timeseries
            was = held.copy()
            w.units = B.choice('new-units', sorted(FACTOR))
            B.prove('series-given-out-kept', (held == was).all())
            check_series(B, w, times, uv, 'units')
        check_wind(B, w, times, uv, k)


def refused(B):
    """bounded: series out of order or with repeated times are refused, whatever form they come in"""
    n, unit, cs, times, vals, arr, uv = wind_case(B, nmin=2)
    i, j = B.int('i', lo=0, hi=n - 1), B.int('j', lo=0, hi=n - 1)
    t2 = list(times)
    if i == j:
        t2[i] = t2[i - 1] if i else t2[1]
    else:
        t2[i], t2[j] = t2[j], t2[i]
    form = B.choice('form', ['array', 'list'])
    data = list(zip(t2, vals)) if form == 'list' else np.array(list(zip(t2, vals)), dtype=datetime_value_2d)
    for name, make in (('wind', lambda: Wind(timeseries=data, units=unit, coord_sys=cs)), ('series', lambda: Timeseries(timeseries=data, coord_sys=cs))):
        try:
            make()
            B.prove(name + '-refused', False, '%s' % t2)
        except TimeseriesError:
            pass
    w = Wind(timeseries=arr, units=unit, coord_sys=cs)
    try:
        w.set_wind_data(data, 'm/s', cs)
        B.prove('set-refused', False)
    except TimeseriesError:
        pass
    check_series(B, w, times, uv, 'after-refusal')


def generic(B):
    """bounded: the plain time series"""
    n, unit, cs, times, vals, arr, uv = wind_case(B)
    uv = [v if cs == 'uv' else uv_of(*v) for v in vals]
    s = Timeseries(timeseries=arr, coord_sys=cs, extrapolation_is_allowed=B.bool('allow'))
    d = s.get_timeseries(coord_sys='uv')
    B.prove('all', d['time'].astype(datetime.datetime).tolist() == times and all(near(a, u) and near(b, v) for (a, b), (u, v) in zip(d['value'], uv)))
    q = query_times(B, times)
    want = [uv_at(times, uv, t, s.extrapolation_is_allowed) for t in q]
    try:
        d = s.get_timeseries(q, coord_sys='uv')
        B.prove('accepted-only-inside', all(x is not None for x in want))
        B.prove('several-times', d['time'].astype(datetime.datetime).tolist() == q and all(near(a, u, 40) and near(b, v, 40) for (a, b), (u, v) in zip(d['value'], want)))
    except (IndexError, RuntimeError):
        B.prove('refused-only-outside', any(x is None for x in want))
    # replaced values: a whole array, a list of pairs or one single pair
    k = B.choice('replace', ['array', 'list', 'one'])
    pairs = [(t, tuple(map(float, v))) for t, v in zip(times, vals)]
    if k == 'one':
        times, uv = times[:1], uv[:1]
    s.set_timeseries({'array': arr, 'list': pairs, 'one': pairs[0]}[k], coord_sys=cs)
    d = s.get_timeseries(coord_sys='uv')
    B.prove('replaced', d['time'].astype(datetime.datetime).tolist() == times and len(s) == len(times)
            and all(near(a, u) and near(b, v) for (a, b), (u, v) in zip(d['value'], uv)), [d])
    s = Timeseries(timeseries=pairs[0] if k == 'one' else pairs, coord_sys=cs)
    d = s.get_timeseries(coord_sys='uv')
    B.prove('from-pairs', d['time'].astype(datetime.datetime).tolist() == (times if k == 'one' else [t for t, _ in pairs])
            and all(near(a, u) and near(b, v) for (a, b), (u, v) in zip(d['value'], uv)), [d])


def ossm(B):
    """bounded: wind files written with any of the headers, read back"""
    n = B.int('n', lo=1, hi=5)
    times, t = [], datetime.datetime(B.choice('year', [1971, 1999, 2012, 2069]), 2, 28, 22, 15)
    for _ in range(n):
        times.append(t)
        t += datetime.timedelta(minutes=B.choice('gap', [1, 30, 60, 1440, 7000]))
    card = {'N': 0., 'NNE': 22.5, 'E': 90., 'SSW': 202.5, 'W': 270., 'NNW': 337.5, 'ESE': 112.5}
    vals = [(B.choice('r', [0., 3., 12.25]), B.choice('th', [0., 45.5, 180., 359.] + list(card))) for _ in range(n)]
    unit = B.choice('unit', ['knots', 'mps', 'm/s', 'meters per second', 'kilometer per hour'])
    f = FACTOR.get(unit, FACTOR['knots'] if unit == 'knots' else FACTOR['kilometer per hour'] if 'kilo' in unit else 1.)
    loc = B.choice('loc', [None, (28.1, -88.5)])
    name = B.choice('name', ['Station X', ''])
    head, zone = [name, '%s,%s' % loc if loc else '', unit], None
    lines = B.choice('head', [3, 4, 5])
    zt = B.choice('zone', ['GMT', '-8, PST', '5.5,IST', 'nothing'])
    if lines > 3:
        head.append(zt)
        zone = {'GMT': 0, '-8, PST': -8., '5.5,IST': 5.5, 'nothing': None}[zt]
    if lines > 4:
        head.append('0,0,0,0,0,0,0,0')
    two = B.bool('two-digit-year')
    sep = B.choice('sep', [',', ', '])
    body = [sep.join(map(str, (t.day, t.month, t.year % 100 if two else t.year, t.hour, t.minute, r, th))) for t, (r, th) in zip(times, vals)]
    if B.bool('blank'):
        body.append('')
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'w.osm')
        with open(fn, 'w') as o:
            o.write('\n'.join(head + body) + '\n')
        how = B.choice('how', ['init', 'from_file'])
        w = Wind(filename=fn) if how == 'init' else Wind.from_file(fn)
        uv = [uv_of(r * f, card.get(th, th)) for r, th in vals]
        own = {'mps': 'm/s', 'meters per second': 'm/s'}.get(w.units, w.units)
        for q in times:
            u, v = np.asarray(w.at(None, q)).reshape(-1)
            i = times.index(q)
            B.prove('read', near(u, uv[i][0]) and near(v, uv[i][1]), '%s: %s instead of %s' % (body[i], (u, v), uv[i]))
        B.prove('times', w.timeseries['time'].astype(datetime.datetime).tolist() == times)
        B.prove('place', (w.latitude, w.longitude) == (loc or (None, None)), '%s' % ((w.latitude, w.longitude),))
        B.prove('zone', w.timezone_offset.offset == zone, '%s' % w.timezone_offset.offset)
        B.prove('name', w.name == (name or fn), w.name)
        # written and read again (two digits after the point)
        fn2 = os.path.join(d, 'w2.osm')
        w._write_timeseries_to_file(fn2)
        w2 = Wind(filename=fn2)
        a, b = w.get_wind_data(units='m/s', coord_sys='uv'), w2.get_wind_data(units='m/s', coord_sys='uv')
        B.prove('written-times', (a['time'] == b['time']).all())
        B.prove('written-values', np.abs(a['value'] - b['value']).max() < 0.02, '%s %s' % (a['value'], b['value']))


def average(B):
    """bounded: a running average lies between the smallest and the largest speed, equals a constant speed and comes from the past hours only"""
    n, unit, cs, times, vals, arr, uv = wind_case(B)
    const = B.bool('const')
    if const:
        arr['value'][:] = arr['value'][0]
        uv = [uv[0]] * n
    B.assume((times[-1] - times[0]).total_seconds() <= 48 * 3600)
    w = Wind(timeseries=arr, units=unit, coord_sys=cs, extrapolation_is_allowed=True)
    hours = B.int('hours', lo=1, hi=5)
    r = RunningAverage(w, past_hours_to_average=hours)
    for t in query_times(B, times):
        if not times[0] <= t <= times[-1]:
            continue
        try:
            u, v = r.get_value(t)
        except IndexError:
            B.prove('answered-up-to-the-last-averaged-time', t > r.timeseries['time'].astype(datetime.datetime)[-1])
            continue
        sp = [math.hypot(*uv_at(times, uv, x, True)) for x in times]
        B.prove('speed-only', v == 0)
        B.prove('between-the-extremes', -1e-9 <= u <= max(sp) + 1e-9, '%s %s' % (u, sp))
        if const:
            B.prove('constant', near(u, sp[0]), '%s %s' % (u, sp[0]))
    for t, (u, v) in zip(r.timeseries['time'].astype(datetime.datetime), r.timeseries['value']):
        s = [math.hypot(*uv_at(times, uv, t - secs(3600 * j), True)) for j in range(hours + 1)]
        B.prove('trapezoidal-mean-of-the-past-hours', near(u, sum((a + b) / 2 for a, b in zip(s, s[1:])) / hours, 40), '%s %s' % (u, s))


def average_run(B):
    """bounded: through a run over a long series (of which only two days are averaged at a time) the average is at hand at every step"""
    gap = B.choice('gap', [1, 3, 6])
    n = B.int('days', lo=2, hi=6) * 24 // gap + B.int('more', lo=2, hi=5)
    times = [T0 + secs(3600 * gap * k) for k in range(n)]
    uv = [(B.real('u', lo=-10, hi=10), B.real('v', lo=-10, hi=10)) for _ in range(n)]
    w = Wind(timeseries=np.array([(t, x) for t, x in zip(times, uv)], dtype=datetime_value_2d), units='m/s', coord_sys='uv', extrapolation_is_allowed=True)
    hours = B.int('hours', lo=1, hi=5)
    r = RunningAverage(w, past_hours_to_average=hours)
    t = T0 + secs(3600 * B.int('start', lo=0, hi=40))
    step = secs(B.choice('step', [1800, 3600, 4 * 3600, 30 * 3600]))
    r.prepare_for_model_run(t)
    top = max(math.hypot(*x) for x in uv)
    while t <= times[-1]:
        r.prepare_for_model_step(t)
        ts = r.timeseries
        tt = ts['time'].astype(datetime.datetime)
        if not (tt[0] <= t <= tt[-1] or t > times[-1] - secs(3600)):
            B.prove('the-average-covers-the-step', False, (t, tt[0], tt[-1]))
            return
        if tt[0] <= t <= tt[-1]:
            u, v = r.get_value(t)
            B.prove('between-nothing-and-the-strongest', -1e-9 <= u <= top + 1e-9 and v == 0, (u, v, top))
        k = B.int('node', lo=0, hi=len(tt) - 1)
        s = [math.hypot(*uv_at(times, uv, tt[k] - secs(3600 * j), True)) for j in range(hours + 1)]
        B.prove('mean-of-the-past-hours', near(ts['value'][k][0], sum((a + b) / 2 for a, b in zip(s, s[1:])) / hours, 40), (tt[k], ts['value'][k], s))
        t += step


def mover_wind(B):
    """bounded: a wind mover blows with the wind it was last given, whatever is done to that wind or to the one before it"""
    from gnome.movers import PointWindMover
    mk = lambda sp, di: constant_wind(sp, di, 'm/s')
    sp, di = [B.real('s%d' % k, lo=1, hi=20) for k in range(3)], [B.real('d%d' % k, lo=0, hi=359) for k in range(3)]
    w1 = mk(sp[0], di[0])
    same = B.bool('same')
    w2 = mk(sp[0], di[0]) if same else mk(sp[1], di[1])
    m = PointWindMover(w1)
    m.wind = w2
    cur = (sp[0], di[0]) if same else (sp[1], di[1])
    what = B.choice('then', ['nothing', 'change new', 'change old'])
    if what != 'nothing':
        w = w2 if what == 'change new' else w1
        w.set_wind_data([(T0, (sp[2], di[2]))], units='m/s', coord_sys='r-theta')
        if what == 'change new':
            cur = (sp[2], di[2])
    B.prove('its-wind', m.wind is w2)
    sc = make_sc(B, dict(positions=np.zeros((1, 3)), status_codes=np.full((1,), 2, dtype=np.int16), windages=np.full((1,), .03),
                         windage_range=np.tile([.03, .03], (1, 1)), windage_persist=np.full((1,), -1, dtype=np.int32)), None)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, 900, T0)
    d = np.array(m.get_move(sc, 900, T0))[0, :2] * 111120.00024 / (900 * .03)
    th = math.radians(cur[1])
    B.prove('blows-with-its-wind', np.allclose(d, [-cur[0] * math.sin(th), -cur[0] * math.cos(th)], atol=.02), (d, cur))


def vectors(B):
    """bounded: several series on one time axis"""
    n = B.int('n', lo=1, hi=5)
    times, t = [], T0
    for _ in range(n):
        times.append(t)
        t += secs(B.choice('gap', [60, 3600, 5000]))
    un = B.choice('unit', ['m/s', 'knots'])
    ds = [[B.choice('d', [0., 1., -4., 9.5]) for _ in range(n)] for _ in range(2)]
    allow = B.bool('allow')
    var = [TimeseriesData(data=np.array(d), time=times, units=un, extrapolate=allow, name='d%d' % k) for k, d in enumerate(ds)]
    v = TimeseriesVector(variables=var, units=un, time=var[0].time)
    c = TimeseriesData.constant(name='c', units=un, data=ds[0][0])
    for q in query_times(B, times):
        B.prove('a-constant-holds-for-all-times', near(float(np.ravel(c.at(np.zeros((1, 2)), q, units='m/s'))[0]), ds[0][0] * FACTOR[un]))
    for bad in ([1., 2.], 'x'):
        try:
            TimeseriesData.constant(name='c', units=un, data=bad)
            B.prove('constants-must-be-numbers', False)
        except TypeError:
            pass
    iu = var[0].in_units('cm/s')
    B.prove('a-copy-in-other-units', iu.units == 'cm/s' and all(near(a, b * FACTOR[un] * 100., 500) for a, b in zip(iu.data, ds[0])) and list(var[0].data) == ds[0] and var[0].units == un)
    try:
        var[0].data = list(ds[0]) + [1.]
        B.prove('data-of-another-length-refused', False)
    except ValueError:
        B.prove('data-kept-after-refusal', list(var[0].data) == ds[0])
    for q in query_times(B, times):
        ask, want_un = B.bool('ask'), B.choice('want', ['m/s', 'knots'])
        npt = B.int('npt', lo=1, hi=3)
        ok = n == 1 or allow or ask or times[0] <= q <= times[-1]
        try:
            got = v.at(np.zeros((npt, 2)), q, units=want_un, extrapolate=ask)
        except ValueError:
            B.prove('refused-only-outside', not ok)
            continue
        B.prove('accepted-only-allowed', ok)
        f = FACTOR[un] / FACTOR[want_un]
        x = np.interp((q - T0).total_seconds(), [(t - T0).total_seconds() for t in times], ds[0]), np.interp((q - T0).total_seconds(), [(t - T0).total_seconds() for t in times], ds[1])
        B.prove('shape', got.shape == (npt, 2))
        B.prove('value', all(near(got[i, k], x[k] * f) for i in range(npt) for k in (0, 1)), '%s %s' % (got, x))


W, TS = 'gnome.environment.wind.', 'gnome.utilities.timeseries.Timeseries.'
HARNESSES = [
    H('interpolation', interpolation, conc=300, functions=['gnome.environment.timeseries_objects_base.TimeseriesData.at'], budget=200),
    H('compiled', compiled, conc=100, functions=['OSSMTimeValue_c::' + f for f in ('GetTimeValue', 'GetInterpolatedComponent', 'ClampToTimeRange', 'GetTimeChange', 'GetDataStartTime', 'GetDataEndTime')]),
    H('winds', winds, sym=False, conc=400, functions=[W + 'Wind.' + f for f in ('__init__', 'new_set_timeseries', 'set_wind_data', 'get_wind_data', 'at', 'get_value', '_convert_units', '_set_timezone_offset')] + ['OSSMTimeValue_c::GetTimeValue']),
    H('refused', refused, sym=False, conc=150, functions=[TS + '_check_timeseries', TS + '_timeseries_is_ascending']),
    H('generic', generic, sym=False, conc=200, functions=[TS + 'get_timeseries', TS + '__init__', 'gnome.utilities.convert']),
    H('ossm', ossm, sym=False, conc=200, functions=[W + 'read_ossm_format', W + '_read_ossm_header', W + '_read_ossm_data_line', W + 'Wind._write_timeseries_to_fd', W + 'Wind.from_file']),
    H('average', average, sym=False, conc=200, functions=['gnome.environment.running_average.RunningAverage', 'OSSMTimeValue_c::CalculateRunningAverage']),
    H('average_run', average_run, sym=False, conc=60, functions=['gnome.environment.running_average.RunningAverage.prepare_for_model_run', 'RunningAverage.prepare_for_model_step', 'OSSMTimeValue_c::CalculateRunningAverage']),
    H('mover_wind', mover_wind, sym=False, conc=60, functions=['PointWindMover.wind', 'Wind.set_wind_data']),
    H('vectors', vectors, sym=False, conc=200, functions=['gnome.environment.timeseries_objects_base.TimeseriesVector.at']),
]
