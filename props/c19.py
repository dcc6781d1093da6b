"""C19 times: infinite times are totally ordered, conversions and rounding are exact"""
import datetime
import os
import time
from .common import *
from gnome.utilities.inf_datetime import InfDateTime, InfTime, MinusInfTime
from gnome.utilities import time_utils as tu


def _b(x):
    return x


def order(B):
    """-inf < every datetime < inf: comparisons of all kinds agree with one total order"""
    ks, vs = [], []
    for nm in 'ab':
        k = B.choice('kind_' + nm, ['min', 'fin', 'max'])
        ks.append(k)
        vs.append(InfDateTime('-inf') if k == 'min' else InfDateTime('inf') if k == 'max' else B.datetime('t' + nm))
    rank = {'min': 0, 'fin': 1, 'max': 2}
    a, b = vs
    ra, rb = rank[ks[0]], rank[ks[1]]
    both = ra == rb == 1
    lt = (B.secs(a) < B.secs(b)) if both else ra < rb
    eq = (B.secs(a) == B.secs(b)) if both else ra == rb

    def same(x, y):
        from pyvc.terms import bterm
        return (SymBool(bterm(x)) == SymBool(bterm(y))) if B.symbolic else bool(x) == bool(y)
    B.prove('lt', same(a < b, lt))
    B.prove('le', same(a <= b, Or(lt, eq)))
    B.prove('gt', same(a > b, Not(Or(lt, eq))))
    B.prove('ge', same(a >= b, Not(lt)))
    B.prove('eq', same(a == b, eq))
    B.prove('ne', same(a != b, Not(eq)))
    if ks[0] != 'fin':
        B.prove('negation', type(-a) is (InfTime if ks[0] == 'min' else MinusInfTime) and type(-(-a)) is type(a))
        B.prove('iso', InfDateTime(a.isoformat()) == a)


TZS = ['UTC0', 'PST8PDT,M3.2.0,M11.1.0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


def secs(B):
    """bounded: dates to seconds and back, in any time zone"""
    old = os.environ.get('TZ')
    try:
        os.environ['TZ'] = B.choice('tz', TZS)
        time.tzset()
        n = B.int('n', lo=1, hi=5)
        ds = [datetime.datetime(1971, 1, 1) + datetime.timedelta(seconds=B.int('s', lo=0, hi=B.choice('far', [60, 60, 130]) * 365 * 86400)) for _ in range(n)]
        s = [tu.date_to_sec(d) for d in ds]
        for d, x in zip(ds, s):
            B.prove('round-trip', tu.sec_to_date(x) == d)
            B.prove('reference', x - s[0] == (d - ds[0]).total_seconds())
            B.prove('datetime64-scalar', tu.date_to_sec(np.datetime64(d, 's')) == x)
        arr = np.array(ds, dtype='datetime64[s]')
        sa = tu.date_to_sec(arr)
        B.prove('array-agrees', sa.tolist() == s and tu.date_to_sec(ds).tolist() == s)
        back = tu.sec_to_date(sa)
        B.prove('array-round-trip', (back.astype(object).tolist() if n > 1 else [back]) == ds)
        try:
            tu.date_to_sec(3.5)
            B.prove('non-dates-refused', False)
        except TypeError:
            pass
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


def native(B):
    """bounded: the compiled date conversion agrees with the python one"""
    from gnome.cy_gnome.cy_helpers import CyDateTime
    d = datetime.datetime(1971, 1, 1) + datetime.timedelta(seconds=B.int('s', lo=0, hi=60 * 365 * 86400))
    from gnome.basic_types import date_rec
    c = CyDateTime()
    x = tu.date_to_sec(d)
    rec = np.zeros((1,), dtype=date_rec)
    for k, v in zip(NAMES, d.timetuple()[:6]):
        rec[k] = v
    B.prove('native-date-to-sec', c.DateToSeconds(rec) == x)
    r = c.SecondsToDate(int(x))
    B.prove('native-sec-to-date', tuple(int(r[k]) for k in NAMES) == tuple(d.timetuple()[:6]))


NAMES = ('year', 'month', 'day', 'hour', 'minute', 'second')


def rounding(B):
    to = B.choice('to', [1, 10, 60, 300, 600, 900, 1800, 3600, 7200, 21600, 86400])
    n = B.int('n', lo=1, hi=4)
    ds = [datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=B.int('s', lo=0, hi=900 * 86400)) for _ in range(n)]
    for d in ds:
        r = tu.round_time(d, to)
        mid = datetime.datetime(d.year, d.month, d.day)
        B.prove('multiple', (r - mid).total_seconds() % to == 0)
        B.prove('nearest', abs((r - d).total_seconds()) * 2 <= to)
        B.prove('half-up', not (d - r).total_seconds() * 2 == to)
        B.prove('idempotent', tu.round_time(r, to) == r)
    keep = np.array(ds, dtype='datetime64[s]')
    r = tu.round_time(keep.copy(), to)
    r = np.asarray(r, dtype='datetime64[s]').reshape(-1)
    B.prove('array-agrees', r.astype(object).tolist() == [tu.round_time(d, to) for d in ds])


def tzoff(B):
    m = B.int('m', lo=-14 * 60, hi=14 * 60)
    how = B.choice('how', ['td', 'hours'])
    o = tu.TZOffset(datetime.timedelta(minutes=m) if how == 'td' else m / 60)
    B.prove('timedelta', o.as_timedelta() == datetime.timedelta(minutes=m))
    B.prove('iso', o.as_iso_string() == '%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60))
    B.prove('title', o.title == o.as_iso_string())
    B.prove('none', tu.TZOffset(None).as_timedelta() == datetime.timedelta(0))


def asdt(B):
    d = datetime.datetime(1980, 1, 1) + datetime.timedelta(seconds=B.int('s', lo=0, hi=50 * 365 * 86400))
    B.prove('passes-through', tu.asdatetime(d) is d and tu.asdatetime(None) is None)
    B.prove('iso-string', tu.asdatetime(d.isoformat()) == d)
    f = InfDateTime(d.year, d.month, d.day, d.hour, d.minute, d.second)
    B.prove('finite-infdatetime', f == d)


HARNESSES = [
    H('order', order, functions=['InfTime.*', 'MinusInfTime.*', 'InfDateTime.__new__'], conc=300),
    H('seconds', secs, sym=False, conc=300, functions=['date_to_sec', 'sec_to_date', 'sec_to_datetime']),
    H('native', native, sym=False, conc=300, functions=['CyDateTime.DateToSeconds', 'CyDateTime.SecondsToDate']),
    H('rounding', rounding, sym=False, conc=300, functions=['round_time']),
    H('offsets', tzoff, sym=False, conc=600, functions=['TZOffset.as_timedelta', 'TZOffset.as_iso_string']),
    H('parsing', asdt, sym=False, conc=200, functions=['asdatetime']),
]
