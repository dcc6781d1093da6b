"""C29 what an output records of a step is what the model held at that step"""
import csv
import datetime
import io
import json
import os
import re
import shutil
import tempfile
import zipfile
from .common import *
from . import modelgen as M
from gnome.basic_types import oil_status

TD = datetime.timedelta
MADE = {'latitude': 1, 'longitude': 0, 'depth': 2}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


class Run:
    pass


def go(B, make, weather=None, uncertain=None, backward=False, again=True, maxsteps=6):
    """one or two runs of a random model with the outputters made in a scratch directory; for each run the observed containers after
    each step and what each outputter answered"""
    w = M.build(B, weather=weather, uncertain=uncertain, backward=backward, maxsteps=maxsteps, depth=B.bool('deep'))
    w.model.cache_enabled = B.bool('cache')
    d = tempfile.mkdtemp(prefix='c29')
    r = Run()
    r.w, r.dir, r.start = w, d, w.start
    outs = r.outs = make(d)
    for o in outs:
        w.model.outputters += o
    r.said = {}
    for o in outs:
        def wrap(real, key):
            def f(step_num, *a, **k):
                x = real(step_num, *a, **k)
                r.said.setdefault(key, []).append((step_num, x))
                return x
            return f
        B.patch(o, 'write_output', wrap(o.write_output, id(o)))
    for k in range(B.choice('runs', [1, 1, 2]) if again else 1):
        r.said.clear()
        r.obs = M.run(w)
    sgn = -1 if w.back else 1
    r.time = lambda k: w.start + TD(seconds=sgn * w.step * k)
    r.steps = lambda o: [k for k, x in r.said.get(id(o), []) if x is not None]
    return r


def options(B, unit, end=True):
    """when to write: every step, every few, with or without the first and the last"""
    kw = {}
    t = B.choice('every', [None, None, 1, 2])
    if t:
        kw['output_timestep'] = TD(seconds=unit * t)
    kw['output_zero_step'] = B.choice('zero', [True, True, False])
    if end:
        kw['output_last_step'] = B.choice('last', [True, True, False])
    return kw


def scratch(f):
    def h(B):
        made = []
        real = tempfile.mkdtemp

        def mk(*a, **k):
            made.append(real(*a, **k))
            return made[-1]
        B.patch(tempfile, 'mkdtemp', mk)
        try:
            with open(os.devnull, 'w') as null:
                import contextlib
                with contextlib.redirect_stdout(null):
                    f(B)
        finally:
            for d in made:
                shutil.rmtree(d, ignore_errors=True)
    h.__doc__, h.__name__ = f.__doc__, f.__name__
    return h


def read_nc(path):
    """an independent reader of the file: a list of (time, {variable: rows}, {balance entry: value})"""
    import netCDF4 as nc
    out = []
    with nc.Dataset(path) as ds:
        ds.set_auto_mask(False)
        t = ds.variables['time']
        times = [datetime.datetime(*x.timetuple()[:6]) for x in nc.num2date(t[:], t.units, t.calendar)] if len(t) else []
        cnt = [int(x) for x in ds.variables['particle_count'][:]]
        at = 0
        rows = {k: np.array(v[:]) for k, v in ds.variables.items() if k not in ('time', 'particle_count')}
        mb = {k: np.array(v[:]) for k, v in ds.groups['mass_balance'].variables.items()} if 'mass_balance' in ds.groups else {}
        for k, (x, n) in enumerate(zip(times, cnt)):
            out.append((x, {v: a[at:at + n] for v, a in rows.items()}, {v: a[k] for v, a in mb.items() if len(a) > k}))
            at += n
        total = {v: len(a) for v, a in rows.items()}
    return out, at, total


@scratch
def netcdf(B):
    """bounded: NetCDF output, forecast and uncertain, read independently and by read_data"""
    from gnome.outputters import NetCDFOutput
    weather = B.bool('weather')
    which, zipped = B.choice('which', ['standard', 'most', 'all']), B.bool('zip')
    kw = dict(which_data=which, zip_output=zipped, compress=B.bool('compress'))

    def make(d):
        return [NetCDFOutput(os.path.join(d, 'out.nc'), **kw, **options(B, B.choice('unit', [60, 900])))]
    r = go(B, make, weather=weather, backward=True)
    o, = r.outs
    steps = r.steps(o)
    files = {False: os.path.join(r.dir, 'out.nc'), True: os.path.join(r.dir, 'out_uncertain.nc')}
    want = [False, True] if r.w.unc else [False]
    if zipped:
        with zipfile.ZipFile(os.path.join(r.dir, 'out.zip')) as z:
            B.prove('zip-holds-each-file', sorted(z.namelist()) == sorted(os.path.basename(files[u]) for u in want), z.namelist())
            z.extractall(r.dir)
    for u in want:
        recs, at, total = read_nc(files[u])
        B.prove('one-record-per-step-written', [x[0] for x in recs] == [r.time(k) for k in steps], ([x[0] for x in recs], steps))
        B.prove('nothing-beside-the-records', all(n == at for n in total.values()), (total, at))
        for (t, rows, mb), k in zip(recs, steps):
            ob = r.obs[k][int(u)]
            B.prove('elements-of-the-step', len(next(iter(rows.values()))) == len(ob), (k, u, len(ob)))
            B.prove('standard-data-present', {'latitude', 'longitude', 'depth', 'status_codes', 'spill_num', 'id', 'mass', 'age'} <= set(rows), sorted(rows))
            for v, a in rows.items():
                if v == 'surface_concentration':
                    continue  # worked out while writing
                held = ob['positions'][:, MADE[v]] if v in MADE else ob[v]
                B.prove('variable-of-the-step', same(a, held), (v, k, u, a, held))
            if which == 'all':
                B.prove('every-array-written', set(ob.a) - {'positions'} <= set(rows), set(ob.a) - set(rows))
            B.prove('balance-of-the-step', all(k2 in mb and same(mb[k2], v) for k2, v in ob.mb.items()), (mb, ob.mb))
        for q in range(min(3, len(recs))):
            j = B.int('record', lo=0, hi=len(recs) - 1)
            how = B.choice('how', ['index', 'negative', 'time', 'near'])
            a = dict(index=j) if how == 'index' else dict(index=j - len(recs)) if how == 'negative' else \
                dict(time=recs[j][0] + TD(seconds=0 if how == 'time' else r.w.step * B.real('off', lo=-.4, hi=.4)))
            got, gmb = NetCDFOutput.read_data(files[u], which_data='all', **a)
            k = steps[j]
            ob = r.obs[k][int(u)]
            if how == 'near' and not same(len(got['id']), len(ob)):
                pass
            B.prove('read-back-time', str(got['current_time_stamp'])[:19] == str(recs[j][0])[:19], (how, j, got['current_time_stamp'], recs[j][0]))
            for v in ('positions', 'mass', 'status_codes', 'id', 'spill_num', 'age'):
                B.prove('read-back-' + v, same(np.ma.getdata(got[v]), ob[v]), (how, j, u, got[v], ob[v]))
            B.prove('read-back-balance', all(same(np.ma.getdata(gmb[x]), v) for x, v in ob.mb.items()), (gmb, ob.mb))


@scratch
def budget(B):
    """bounded: the oil budget table and the mass balance files"""
    from gnome.outputters import OilBudgetOutput, WeatheringOutput
    on = B.choice('on', [True, True, True, False])

    def make(d):
        u = B.choice('unit', [60, 900])
        k = options(B, u)
        return [OilBudgetOutput(os.path.join(d, 'b.csv'), on=on, **({'output_timestep': k['output_timestep']} if 'output_timestep' in k else {})),
                WeatheringOutput(output_dir=os.path.join(d, 'wx'), **options(B, u)), WeatheringOutput(**options(B, u))]
    r = go(B, make, weather=True)
    o, f, m = r.outs
    fn = os.path.join(r.dir, 'b.csv')
    if not on:
        B.prove('no-table-when-off', not r.steps(o) and (not os.path.exists(fn) or len(open(fn).readlines()) <= 1))
        return
    with open(fn, newline='') as fd:
        rows = list(csv.reader(fd))
    head, rows = rows[0], rows[1:]
    kinds = dict(zip(['Amount Released (kg)', 'Evaporated (kg)', 'Dispersed (kg)', 'Sedimentation (kg)', 'Beached (kg)', 'Floating (kg)', 'Off_maps (kg)'],
                     ['amount_released', 'evaporated', 'natural_dispersion', 'sedimentation', 'beached', 'floating', 'off_maps']))
    B.prove('columns-named', set(kinds) | {'Model Time', 'Hours Since Model Start'} == set(head), head)
    n = len(r.obs)
    steps = [0]
    B.prove('first-and-last-in-the-table', len(rows) >= min(n, 2) and rows[0][0] == r.time(0).strftime('%Y-%m-%d %H:%M') and rows[-1][0] == r.time(n - 1).strftime('%Y-%m-%d %H:%M'), rows)
    at = 0
    for row in rows:
        row = dict(zip(head, row))
        while at < n and r.time(at).strftime('%Y-%m-%d %H:%M') != row['Model Time']:
            at += 1
        if at >= n:
            B.prove('row-of-a-step-in-order', False, (row, n))
            return
        # steps of a minute or more: the time tells the step
        mb = r.obs[at][0].mb
        hrs = (r.time(at) - r.start).total_seconds() / 3600
        B.prove('hours-since-the-start', abs(float(row['Hours Since Model Start']) - hrs) < 1 / 60 + 1e-6, (row, hrs))
        for c, key in kinds.items():
            if key in mb:
                B.prove('budget-of-the-step', abs(float(row[c]) - mb[key]) <= 1e-7 * abs(mb[key]) + 1e-12, (c, row[c], mb[key]))
            else:
                B.prove('nothing-made-up', row[c].strip() == '', (c, row[c]))
        at += 1
    for o in (f, m):
        for k, x in r.said[id(o)]:
            if x is None:
                continue
            mb = r.obs[k][0].mb
            B.prove('balance-returned', x['time_stamp'] == r.time(k).isoformat() and all(same(x[q], v) for q, v in mb.items()), (x, mb))
    files = sorted(os.listdir(os.path.join(r.dir, 'wx')))
    B.prove('a-file-per-step-written', files == ['mass_balance_%06d.json' % k for k in r.steps(f)], (files, r.steps(f)))
    for k, fn in zip(r.steps(f), files):
        x = json.load(open(os.path.join(r.dir, 'wx', fn)))
        B.prove('balance-in-the-file', x['time_stamp'] == r.time(k).isoformat() and all(same(x[q], v) for q, v in r.obs[k][0].mb.items()), (x, r.obs[k][0].mb))


def points_of(fc):
    return [(f['geometry']['coordinates'], f['properties']) for f in fc['features']]


@scratch
def geojson(B):
    """bounded: trajectories as GeoJSON, returned and in files, and as plain JSON"""
    from gnome.outputters import TrajectoryGeoJsonOutput, SpillJsonOutput
    nd, exact = B.choice('digits', [4, 2, 6]), B.choice('exact', [False, False, True])

    def make(d):
        u = B.choice('unit', [60, 900])
        return [TrajectoryGeoJsonOutput(round_to=nd, round_data=not exact, output_dir=os.path.join(d, 'gj') if B.bool('files') else None, **options(B, u)), SpillJsonOutput(**options(B, u))]
    r = go(B, make, weather=B.bool('weather'), backward=True)
    o, j = r.outs

    def check(fc, ob, kind):
        p = points_of(fc)
        if len(p) != len(ob):
            B.prove('a-point-per-element', False, (kind, len(p), len(ob)))
            return
        ids = [f.get('id') for f in fc['features']]
        B.prove('elements-told-apart', len({str(x) for x in ids}) == len(ids) or kind == 'file', (kind, ids))
        for i, (xy, pr) in enumerate(p):
            tol = 0 if exact else .51 * 10. ** -nd
            ptol = max(tol, .51e-6)  # the library keeps six digits
            B.prove('where-the-element-is', abs(xy[0] - ob['positions'][i, 0]) <= ptol and abs(xy[1] - ob['positions'][i, 1]) <= ptol, (kind, i, xy, ob['positions'][i]))
            B.prove('what-the-element-holds', pr['status_code'] == ob['status_codes'][i] and pr['spill_num'] == ob['spill_num'][i] and abs(pr['mass'] - ob['mass'][i]) <= tol
                    and pr['sc_type'] == kind, (kind, i, pr))
    for k, x in r.said[id(o)]:
        if x is None:
            continue
        B.prove('time-of-the-step', x['time_stamp'] == r.time(k).isoformat())
        check(x['certain'], r.obs[k][0], 'forecast')
        if r.w.unc:
            check(x['uncertain'], r.obs[k][1], 'uncertain')
        else:
            B.prove('no-uncertain-points', len(points_of(x['uncertain'])) == 0)
        if o.output_dir:
            fc = json.load(open(x['output_filename']))
            for u, kind in enumerate(('forecast', 'uncertain')[:1 + int(r.w.unc)]):
                check(dict(features=[f for f in fc['features'] if f['properties']['sc_type'] == kind]), r.obs[k][u], kind)
    if o.output_dir:
        fc = [f for f in sorted(os.listdir(o.output_dir)) if re.fullmatch(r'geojson_\d+.geojson', f)]
        B.prove('a-file-per-step-written', fc == ['geojson_%06d.geojson' % k for k in r.steps(o)], (fc, r.steps(o)))
    for k, x in r.said[id(j)]:
        if x is None:
            continue
        B.prove('time-of-the-step', x['time_stamp'] == r.time(k).isoformat() and x['step_num'] == k)
        B.prove('containers-told-apart', (len(x['certain']), len(x['uncertain'])) == (1, int(r.w.unc)))
        for out, ob in zip(x['certain'] + x['uncertain'], r.obs[k]):
            B.prove('elements-of-the-step', out['length'] == len(ob) and same(out['status'], ob['status_codes']) and same(out['spill_num'], ob['spill_num']), (k, out))
            B.prove('positions-of-the-step', bool(np.allclose(np.reshape([out['longitude'], out['latitude']], (2, -1)).T, ob['positions'][:, :2], rtol=0, atol=.6e-5)), (k, out))
            B.prove('masses-of-the-step', bool(np.allclose(out['mass'], ob['mass'], rtol=0, atol=.6e-4)), (k, out))


@scratch
def binary(B):
    """bounded: the binary files for the analyst: one per step written, in the archive or beside it"""
    from gnome.outputters import BinaryOutput
    zipped = B.bool('zip')

    def make(d):
        return [BinaryOutput(os.path.join(d, 'bin.zip'), zip_output=zipped, **options(B, B.choice('unit', [60, 900])))]
    r = go(B, make, weather=B.bool('weather'))
    o, = r.outs
    steps = r.steps(o)
    kinds = ['FORCST', 'UNCRTN'] if r.w.unc else ['FORCST']
    want = sorted('bin%s.%03d' % (k, i) for k in kinds for i in range(len(steps)))
    if zipped:
        with zipfile.ZipFile(os.path.join(r.dir, 'bin.zip')) as z:
            data = {n: z.read(n) for n in z.namelist()}
    else:
        data = {n: open(os.path.join(r.dir, n), 'rb').read() for n in os.listdir(r.dir)}
    B.prove('a-file-per-step-written', sorted(data) == want, (sorted(data), want))
    head = np.dtype([('name', 'S10')] + [(x, '>i2') for x in ('day', 'month', 'year', 'hour', 'minute')] + [('current_time', '>f4'), ('version', '>f4'), ('num', '>i4')])
    le = np.dtype([(x, '>f4') for x in ('lat', 'lon', 'released', 'age', 'beach')] + [(x, '>i4') for x in ('map', 'pollutant', 'wind')])
    for c, kind in enumerate(kinds):
        for i, k in enumerate(steps):
            raw = data.get('bin%s.%03d' % (kind, i))
            if raw is None:
                return
            ob, t = r.obs[k][c], r.time(k)
            h = np.frombuffer(raw[:head.itemsize], head)[0]
            x = np.frombuffer(raw[head.itemsize:], le)
            B.prove('header-of-the-step', (h['year'], h['month'], h['day'], h['hour'], h['minute'], h['num']) == (t.year, t.month, t.day, t.hour, t.minute, len(ob)), (h, t, len(ob)))
            B.prove('elements-of-the-step', len(x) == len(ob) and bool(np.allclose(x['lat'], ob['positions'][:, 1], rtol=1e-6, atol=1e-6) and
                    np.allclose(x['lon'], -ob['positions'][:, 0], rtol=1e-6, atol=1e-6)), (x, ob['positions']))
            hours = (t - datetime.datetime(t.year - t.year % 4, 1, 1)).total_seconds() / 3600
            B.prove('time-of-the-step', abs(h['current_time'] - hours) < .01, (h['current_time'], hours))
            B.prove('released-its-age-ago', len(x) == len(ob) and (r.w.back or bool(np.allclose(x['released'], hours - ob['age'] / 3600., atol=.01, rtol=0))), (x['released'], hours, ob['age']))
            B.prove('beached-told-apart', len(x) == len(ob) and same(x['beach'] != 0, ob['status_codes'] == oil_status.on_land))


@scratch
def kmz(B):
    """bounded: the KMZ: a folder per step and container with one point per element, in water and on land told apart"""
    from gnome.outputters import KMZOutput

    def make(d):
        return [KMZOutput(os.path.join(d, 'o.kmz'), **options(B, B.choice('unit', [60, 900])))]
    r = go(B, make, weather=B.bool('weather'))
    o, = r.outs
    steps = r.steps(o)
    with zipfile.ZipFile(os.path.join(r.dir, 'o.kmz')) as z:
        kml = [n for n in z.namelist() if n.endswith('.kml')]
        B.prove('one-kml', len(kml) == 1, z.namelist())
        txt = z.read(kml[0]).decode('utf8')
    import xml.etree.ElementTree as ET
    root = ET.fromstring(txt)
    tag = lambda e: e.tag.split('}')[-1]
    got = {}
    spans = set()
    def walk(e, begin, style, land):
        for c in e:
            if tag(c) == 'TimeSpan':
                begin = [x.text.strip() for x in c if tag(x) == 'begin'][0]
                spans.add((begin, [x.text.strip() for x in c if tag(x) == 'end'][0]))
        for c in e:
            if tag(c) == 'styleUrl':
                style = c.text.strip()
        for c in e:
            if tag(c) == 'Point':
                xy = [x.text for x in c if tag(x) == 'coordinates'][0]
                got.setdefault((begin, style), []).append(tuple(float(q) for q in xy.strip().split(',')[:2]))
            else:
                walk(c, begin, style, land)
    walk(root, None, None, None)
    for a, b in spans:
        long = datetime.datetime.fromisoformat(b) - datetime.datetime.fromisoformat(a)
        B.prove('shown-until-the-next-record', long == (o.output_timestep or TD(seconds=r.w.step)), (a, b))
    want = {}
    for k in steps:
        for u, ob in enumerate(r.obs[k]):
            for st in (oil_status.in_water, oil_status.on_land):
                p = ob['positions'][ob['status_codes'] == st]
                if len(p):
                    want[(r.time(k).isoformat(), (u, int(st)))] = p[:, :2]
    B.prove('times-of-the-steps', {t for t, _ in got if t} == {t for t, _ in want}, (sorted({t for t, _ in got if t}), sorted({t for t, _ in want})))
    for t in {t for t, _ in want}:
        g = sorted(len(v) for (q, _), v in got.items() if q == t)
        e = sorted(len(v) for (q, _), v in want.items() if q == t)
        B.prove('a-point-per-element', g == e, (t, g, e))
        a = np.array(sorted(x for (q, _), v in got.items() if q == t for x in v))
        b = np.array(sorted((round(x[0], 6), round(x[1], 6)) for (q, _), v in want.items() if q == t for x in v))
        B.prove('where-the-elements-are', a.shape == b.shape and bool(np.allclose(np.sort(a[:, 0]), np.sort(b[:, 0]), rtol=0, atol=2e-6) and np.allclose(np.sort(a[:, 1]), np.sort(b[:, 1]), rtol=0, atol=2e-6)), (t, a, b))


@scratch
def memory(B):
    """bounded: what the memory outputter keeps does not change afterwards"""
    from gnome.outputters.memory_outputter import MemoryOutputter

    def make(d):
        return [MemoryOutputter(**options(B, B.choice('unit', [60, 900])))]
    r = go(B, make, weather=B.bool('weather'), uncertain=False, backward=True)
    o, = r.outs
    rec, steps = o.data_buffer.certain, r.steps(o)
    B.prove('one-record-per-step-written', [x['time'] for x in rec] == [r.time(k) for k in steps], (rec, steps))
    for x, k in zip(rec, steps):
        for v in ('mass', 'positions', 'age', 'status_codes'):
            B.prove('kept-as-it-was', same(x[v], r.obs[k][0][v]), (v, k, x[v]))


@scratch
def shapes(B):
    """bounded: shapefiles, zipped or not: one point per element and step with what the element holds"""
    import warnings
    import geopandas
    from gnome.outputters import ShapeOutput
    zipped = B.bool('zip')
    kw = {} if B.bool('concentration') else dict(surface_conc=None)
    off = B.choice('offset', [None, -8, 5.5])

    def make(d):
        return [ShapeOutput(os.path.join(d, 'sh.zip'), zip_output=zipped, timeoffset=off, **kw, **options(B, B.choice('unit', [60, 900])))]
    r = go(B, make, weather=B.bool('weather'), backward=True)
    o, = r.outs
    steps = r.steps(o)
    got = {}
    if zipped or r.w.unc:
        with zipfile.ZipFile(os.path.join(r.dir, 'sh.zip')) as z:
            names = z.namelist()
            z.extractall(os.path.join(r.dir, 'x'))
        x = os.path.join(r.dir, 'x')
        if r.w.unc:
            ext = '.zip' if zipped else '.shp'
            B.prove('both-in-the-bundle', {'sh_certain' + ext, 'sh_uncertain' + ext} <= set(names), names)
            got = {0: x + '/sh_certain' + ext, 1: x + '/sh_uncertain' + ext}
        else:
            got = {0: [os.path.join(x, n) for n in names if n.endswith('.shp')][0]}
    else:
        got = {0: os.path.join(r.dir, 'sh.shp')}
    for u, fn in got.items():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g = geopandas.read_file(fn)
        n = sum(len(r.obs[k][u]) for k in steps)
        B.prove('a-point-per-element-and-step', len(g) == n, (u, len(g), n))
        if len(g) != n or not n:
            continue
        for k in steps:
            ob = r.obs[k][u]
            h = g[g['Time'].astype(str).str.slice(0, 19).str.replace(' ', 'T') == r.time(k).strftime('%Y-%m-%dT%H:%M:%S')].sort_values('LE_id')
            if len(h) != len(ob):
                B.prove('elements-of-the-step', False, (k, u, len(h), len(ob)))
                continue
            q = np.argsort(ob['id'], kind='stable')
            xy = np.array([(p.x, p.y) for p in h.geometry]).reshape(-1, 2)
            B.prove('where-the-elements-are', bool(np.allclose(xy, ob['positions'][q, :2], rtol=1e-9, atol=1e-9)), (k, u))
            for col, key in (('LE_id', 'id'), ('Spill_id', 'spill_num'), ('Mass', 'mass'), ('Age', 'age'), ('StatusCode', 'status_codes'), ('Density', 'density'), ('Viscosity', 'viscosity')):
                if key in ob and (col in h or col not in ('Density', 'Viscosity')):
                    B.prove('what-the-elements-hold', bool(np.allclose(h[col].to_numpy(dtype=float), ob[key][q], rtol=1e-6, atol=1e-9, equal_nan=True)), (k, u, col, list(h[col]), ob[key][q]))
            B.prove('depth-of-the-elements', bool(np.allclose(h['Depth'].to_numpy(dtype=float), ob['positions'][q, 2], rtol=1e-6, atol=1e-9)), (k, u))
            if off is not None and len(h):
                want = (r.time(k) - TD(hours=off)).strftime('%Y-%m-%dT%H:%M:%S')
                B.prove('utc-of-the-step', str(h['Time_UTC'].iloc[0]).replace(' ', 'T').replace('/', '-')[:19] == want, (h['Time_UTC'].iloc[0], want))


HARNESSES = [
    H('netcdf', netcdf, sym=False, conc=60, conc_budget=60, functions=['NetCDFOutput.write_output', 'NetCDFOutput.prepare_for_model_run', 'NetCDFOutput.read_data', 'NetCDFOutput._zip_output_files']),
    H('budget', budget, sym=False, conc=60, conc_budget=40, functions=['OilBudgetOutput.write_output', 'WeatheringOutput.write_output', 'BaseMassBalanceOutputter.gather_mass_balance_data']),
    H('geojson', geojson, sym=False, conc=60, conc_budget=40, functions=['TrajectoryGeoJsonOutput.write_output', 'SpillJsonOutput.write_output']),
    H('binary', binary, sym=False, conc=60, conc_budget=40, functions=['BinaryOutput.write_output', 'BinaryOutput.output_to_file', 'BinaryOutput._zip_binary_files']),
    H('kmz', kmz, sym=False, conc=60, conc_budget=40, functions=['KMZOutput.write_output', 'kmz_templates.build_one_timestep']),
    H('shapes', shapes, sym=False, conc=40, conc_budget=40, functions=['ShapeOutput.write_output', 'ShapeOutput.post_model_run', 'ParticleShapefileBuilder.append']),
    H('memory', memory, sym=False, conc=60, conc_budget=40, functions=['MemoryOutputter.write_output']),
]


class FakeVar:
    """contract of a NetCDF variable: a growing table; remembers what is written where"""
    units, calendar = 'u', 'c'

    def __init__(self, n, data=None):
        self.n, self.data, self.wrote = n, data or {}, []

    def _sym_len_(self):
        return self.n

    def __len__(self):
        return self.n

    def __setitem__(self, k, v):
        self.wrote.append((k, v))

    def __getitem__(self, k):
        for q, v in reversed(self.wrote):
            if q is k or (not isinstance(k, slice) and not isinstance(q, slice) and q == k):
                return v
        if isinstance(k, slice):
            raise Unsupported('reading a slice of a file')
        return self.data[k]

    def setncatts(self, d):
        pass


class FakeDim(FakeVar):
    pass


class FakeFile:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def written(B):
    """NetCDFOutput.write_output against the contract of the file: the record of a step goes behind the records there are, in its own file, whatever
    the two files hold, and holds the elements, time and balance of the container"""
    from gnome.outputters import NetCDFOutput
    import gnome.outputters.netcdf as mod
    d = tempfile.mkdtemp(prefix='c29')
    try:
        _written(B, NetCDFOutput, mod, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _written(B, NetCDFOutput, mod, d):
    o = NetCDFOutput(os.path.join(d, 'out.nc'), which_data='all', zip_output=False, surface_conc=None)
    two = B.choice('uncertain', [False, True])
    names = ['latitude', 'longitude', 'depth', 'mass', 'status_codes', 'age']
    R = B.choice('records', [0, 1, 2])
    later = B.choice('later', [False, True])             # a balance that first appears at this step
    t = datetime.datetime(2021, 3, 5, 7, 30)
    B.patch(mod.nc, 'date2num', lambda ts, units, calendar=None: ('num', ts))
    scs, files, dims = [], {}, []
    for u in range(1 + int(two)):
        N = B.dim('N%d' % u, 0)
        a = dict(positions=B.array('p%d' % u, (N, 3), lo=-80, hi=80), mass=B.array('m%d' % u, (N,), lo=0, hi=9), status_codes=B.array('s%d' % u, (N,), dtype=np.int16, choices=[0, 2, 3, 7]),
                 age=B.array('a%d' % u, (N,), lo=0, hi=9999))
        sc = make_sc(B, a, None, uncertain=bool(u))
        B.patch(type(sc), '_sym_len_', lambda self: self._n_) if B.symbolic else None
        sc._n_ = N.n
        sc.current_time_stamp = t
        sc.mass_balance = dict(floating=B.real('fl%d' % u, lo=0, hi=9), beached=B.real('be%d' % u, lo=0, hi=9))
        cnt = [B.int('c%d_%d' % (u, k), lo=0, hi=50) for k in range(R)]
        rows = sum(cnt[1:], cnt[0]) if cnt else 0
        vs = {v: FakeVar(rows) for v in names}
        vs['time'] = FakeVar(R)
        vs['particle_count'] = FakeVar(R, dict(enumerate(cnt)))
        grp = FakeFile(variables=dict(time=FakeVar(R), floating=FakeVar(R)))
        if not later:
            grp.variables['beached'] = FakeVar(R)
        files[u] = FakeFile(variables=vs, groups=dict(mass_balance=grp), dimensions=dict(data=FakeDim(rows), time=FakeDim(R)), rows=rows)
        scs.append(sc)
        dims.append(N)
    opened = []

    def create(self, grp, var_name, dtype=None, shape=None, chunksz=None):
        B.prove('creates-a-new-balance', later and var_name == 'beached' and var_name not in grp.variables, var_name)
        v = grp.variables[var_name] = FakeVar(R)
        return v
    B.patch(NetCDFOutput, '_create_nc_var', create)

    def Dataset(path, mode='r', **k):
        u = 1 if path == o.uncertain_filename else 0
        B.prove('its-own-file', path in (o.uncertain_filename, o.forecast_filename) and u < len(files) and mode in ('a', 'r+'), (path, mode))
        opened.append(u)
        return files[u]
    B.patch(mod.nc, 'Dataset', Dataset)
    o.cache = Obj(load_timestep=lambda k: Obj(items=lambda: scs))
    o.arrays_to_output = set(names)
    k0 = B.choice('step', [0, 3])
    poke(o, _write_step=True)
    # as it stands after R records: the files may hold any numbers of elements
    last = files[len(files) - 1].rows
    poke(o, _start_idx=last)
    r = o.write_output(k0)
    B.prove('written', r is not None and sorted(set(opened)) == list(range(1 + int(two))), (r, opened))
    if r is None:
        return
    for u, (sc, N) in enumerate(zip(scs, dims)):
        f = files[u]
        for var in names:
            w = f.variables[var].wrote
            B.prove('written-once', len(w) == 1, (var, len(w)))
            if len(w) != 1 or not isinstance(w[0][0], slice):
                return
            k, val = w[0]
            B.prove('behind-the-records-there-are', And(k.start == f.rows, k.stop == f.rows + N.n, k.step is None or k.step == 1), (u, var, k, f.rows, N.n))
            if var in MADE:
                B.forall('elements-' + var, (N,), lambda i: B.at(val, i) == B.at(sc['positions'], i, MADE[var]))
            else:
                B.forall('elements-' + var, (N,), lambda i: B.at(val, i) == B.at(sc[var], i))
        for var, v in (('time', ('num', t)), ('particle_count', N.n)):
            w = f.variables[var].wrote
            B.prove('record-' + var, len(w) == 1 and w[0][0] == R, (var, w))
            if len(w) == 1:
                B.prove('value-of-' + var, w[0][1] == v, (var, w[0][1], v))
        for var, v in sc.mass_balance.items():
            if var not in f.groups['mass_balance'].variables:
                B.prove('record-of-the-balance', False, var)
                continue
            w = f.groups['mass_balance'].variables[var].wrote
            B.prove('record-of-the-balance', len(w) == 1 and w[0][0] == R, (var, w))
            if len(w) == 1:
                B.prove('value-of-the-balance', w[0][1] == v, (var, w[0][1], v))


HARNESSES.insert(0, H('written', written, functions=['NetCDFOutput.write_output', 'Outputter.write_output']))
