"""C22 what is saved loads back as it was, and runs the same"""
import datetime
import os
import tempfile
import warnings
from .common import *
from . import modelgen as M
from .modelgen import secs, Obs, T0
from .c28 import compare
from gnome.model import Model
from gnome.utilities import rand
from gnome.utilities.inf_datetime import InfDateTime
from gnome.utilities.time_utils import TZOffset


def run_of(m, seed):
    rand.seed(seed)
    m.rewind()
    out = []
    for _ in m:
        out.append([Obs(sc) for sc in m.spills.items()])
    return out


def there_and_back(B, o, d, how):
    if how == 'zip':
        fn = os.path.join(d, 'o.gnome')
        o.save(fn)
        return type(o).load(fn)
    if how == 'dir':
        sub = os.path.join(d, 'sub')
        os.makedirs(sub)
        json_, loc, refs = o.save(sub)
        return type(o).load(loc)
    if how == 'memory':
        json_, z, refs = o.save(None)
        o2 = type(o).load(z)
        z.close()
        return o2
    if how == 'json':
        import zipfile
        fn = os.path.join(d, 'o.gnome')
        json_, loc, refs = o.save(fn)
        sub = os.path.join(d, 'x')
        with zipfile.ZipFile(fn) as z:
            z.extractall(sub)
        return type(o).load(os.path.join(sub, refs[o.id]))
    return type(o).deserialize(o.serialize())


def saved(B):
    """bounded: a whole model saved (before or after running), loaded, and run"""
    w = M.build(B, weather=B.choice('weather', [None, True]), maxsteps=4, land=False, backward=True)
    m = w.model
    seed = B.int('seed2', lo=1, hi=10**6)
    if B.bool('ran'):
        M.run(w)
        m.rewind()
    if B.bool('same-names'):
        for o in list(m.movers) + list(m.weatherers) + list(m.environment) + list(m.spills):
            o.name = 'same'
    before = m.serialize()
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'm.gnome')
        m.save(fn)
        m2 = Model.load_savefile(fn)
        B.prove('times', (m2.start_time, m2.time_step, m2.duration, m2.num_time_steps, bool(m2.uncertain)) == (m.start_time, m.time_step, m.duration, m.num_time_steps, bool(m.uncertain)))
        B.prove('equal', m2 == m)
        for c in ('movers', 'weatherers', 'environment'):
            B.prove('order-of-' + c, [type(x).__name__ for x in getattr(m, c)] == [type(x).__name__ for x in getattr(m2, c)])
        B.prove('saving-changes-nothing', m.serialize() == before)
        compare(B, 'loaded', run_of(m, seed), run_of(m2, seed))


def arange(B):
    k = B.choice('range', ['open', 'from', 'until', 'both'])
    a = T0 + secs(B.int('a', lo=0, hi=10**6))
    b = a + secs(B.int('b', lo=1, hi=10**6))
    return (a if k in ('from', 'both') else InfDateTime('-inf'), b if k in ('until', 'both') else InfDateTime('inf'))


NAMES = ['object number ', '{', '}', '{0}', '.', '..', '/', 'a/b', 'ä', 'x' * 200, '%s', ' ', '"', "'", 'version.txt', 'a.json', '$x', '\\', 'b:c?*|<>']


def tide_file(B, fn):
    with open(fn, 'w') as f:
        f.write('Station\n(1,1)\n%s\n' % B.choice('tu', ['knots', 'meters per second']))
        for h in range(B.int('tn', lo=2, hi=6)):
            f.write('01,01,2020,%02d,00,%r,0.0\n' % (h, B.real('tv', lo=-3, hi=3)))


def oil(B, water):
    from gnome.spills.gnome_oil import GnomeOil
    return GnomeOil(B.choice('oil', ['oil_6', 'oil_crude', 'oil_diesel', 'oil_4']), water=water)


def data_files(B):
    """bounded: data files of the same or another name, with the same or other contents, come back each to its own object"""
    from gnome.environment import Tide
    m = Model(time_step=900, duration=secs(3600), start_time=T0)
    with tempfile.TemporaryDirectory() as d:
        tides = []
        for k in range(B.int('tides', lo=1, hi=4)):
            sub = os.path.join(d, B.choice('folder', ['a', 'b', 'c']))
            os.makedirs(sub, exist_ok=True)
            fn = os.path.join(sub, B.choice('file', ['tide.txt', 'Tide.txt', 'tide', 'other {0}.txt']))
            if not os.path.exists(fn):
                tide_file(B, fn)
            tides.append(Tide(fn))
            m.environment += tides[-1]
        before = [open(t.filename).read() for t in tides]
        m2 = there_and_back(B, m, d, B.choice('how', ['zip', 'dir', 'memory', 'json']))
        B.prove('as-many', len(m2.environment) == len(m.environment))
        for t, u in zip(m.environment, m2.environment):
            a, b = t.cy_obj.timeseries, u.cy_obj.timeseries
            B.prove('own-data', len(a) == len(b) and bool((a == b).all()), '%s -> %s' % (t.filename, u.filename))
        B.prove('files-kept', [open(t.filename).read() for t in tides] == before)


def some_object(B, d):
    from gnome.environment import Wind, Water, Waves, Tide
    from gnome.movers import SimpleMover, RandomMover, RandomMover3D, RiseVelocityMover, PointWindMover
    from gnome.weatherers import Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Skimmer, Burn, ChemicalDispersion
    from gnome.maps import GnomeMap, ParamMap, MapFromBNA
    from gnome.spills import point_line_spill
    from gnome.spills.release import PointLineRelease, PolygonRelease
    from gnome.outputters import TrajectoryGeoJsonOutput, WeatheringOutput, NetCDFOutput, KMZOutput, OilBudgetOutput
    R = lambda n, lo, hi: B.real(n, lo=lo, hi=hi)
    kind = B.choice('kind', ['wind', 'water', 'waves', 'simple', 'random', 'random3d', 'rise', 'windmover', 'evap', 'disp', 'emul', 'fay', 'skim', 'burn', 'chem', 'map',
                             'bna', 'spill', 'release', 'geojson', 'weathering', 'netcdf', 'kmz', 'budget', 'steady', 'current', 'pywind', 'tide', 'beaching', 'langmuir', 'biodeg', 'dissolution', 'halflife',
                             'average', 'grid-release', 'polygon-release', 'shape', 'spilljson', 'substance', 'oil'])
    mv = dict(active_range=arange(B), on=B.bool('on'))
    name = dict(name=B.choice('name', NAMES) + str(B.int('name', lo=0, hi=99)))

    def wind():
        n = B.int('n', lo=1, hi=4)
        t, ts = T0, []
        for _ in range(n):
            ts.append((t, (R('r', 0, 30), R('th', 0, 360))))
            t += secs(B.int('gap', lo=60, hi=10**5))
        return Wind(ts, units=B.choice('wu', ['knots', 'm/s', 'km/h']), coord_sys=B.choice('cs', ['r-theta', 'uv']), extrapolation_is_allowed=B.bool('ext'), latitude=R('lat', -80, 80),
                    longitude=R('lon', -180, 180), speed_uncertainty_scale=R('sus', 0, .5), timezone_offset=TZOffset(B.choice('tz', [-8, 0, 5.5]), 'zone'), **name)

    def water():
        return Water(temperature=R('temp', 274, 310), salinity=R('sal', 0, 40), sediment=R('sed', 0, 1), fetch=B.choice('fetch', [None, 1e4, 500.]), wave_height=B.choice('wh', [None, 2., .5]))
    out = {
        'wind': wind, 'water': water, 'waves': lambda: Waves(wind(), water()),
        'simple': lambda: SimpleMover((R('u', -1, 1), R('v', -1, 1), R('w', -.1, .1)), uncertainty_scale=R('us', 0, 1), **mv),
        'random': lambda: RandomMover(diffusion_coef=R('d', 0, 1e6), uncertain_factor=R('uf', 1, 5), **mv),
        'random3d': lambda: RandomMover3D(vertical_diffusion_coef_above_ml=R('va', 0, 9), vertical_diffusion_coef_below_ml=R('vb', 0, 9), horizontal_diffusion_coef_above_ml=R('ha', 0, 1e5),
                                          horizontal_diffusion_coef_below_ml=R('hb', 0, 1e5), mixed_layer_depth=R('ml', 1, 50), surface_is_allowed=B.bool('sa'), **mv),
        'rise': lambda: RiseVelocityMover(**mv),
        'windmover': lambda: PointWindMover(wind(), uncertain_duration=R('ud', 1, 9), uncertain_time_delay=R('ut', 0, 5), uncertain_speed_scale=R('uss', 0, 4), uncertain_angle_scale=R('ua', 0, 1), **mv),
        'evap': lambda: Evaporation(water(), wind(), **mv), 'disp': lambda: NaturalDispersion(Waves(wind(), water()), water(), **mv), 'emul': lambda: Emulsification(Waves(wind(), water()), **mv),
        'fay': lambda: FayGravityViscous(water=water(), thickness_limit=B.choice('tl', [None, .001])),
        'skim': lambda: Skimmer(R('am', 1, 99), B.choice('un', ['bbl', 'kg', 'm^3']), efficiency=R('ef', 0, 1), active_range=(T0, T0 + secs(B.int('len', lo=60, hi=10**5))), water=water(), on=mv['on']),
        'burn': lambda: Burn(area=R('ar', 10, 1e4), thickness=R('thk', .01, .1), active_range=(T0, InfDateTime('inf')), area_units=B.choice('au', ['m^2', 'ft^2']), thickness_units='m', efficiency=R('ef', .1, 1),
                             wind=wind(), water=water()),
        'chem': lambda: ChemicalDispersion(fraction_sprayed=R('fs', .01, 1), efficiency=R('ef', .1, 1), active_range=(T0, T0 + secs(B.int('len', lo=60, hi=10**5))), waves=Waves(wind(), water())),
        'map': lambda: GnomeMap(map_bounds=[(R('x0', -9, 0), R('y0', -9, 0)), (R('x1', -9, 0), R('y1', 1, 9)), (R('x2', 1, 9), R('y2', 1, 9))]),
        'spill': lambda: point_line_spill(B.int('ne', lo=1, hi=50), (R('lon', -180, 180), R('lat', -80, 80), R('z', 0, 50)), T0, end_release_time=B.choice('end', [None, T0 + secs(3600)]), amount=R('am', 1, 999),
                                          units=B.choice('un', ['kg', 'g', 'lb']), windage_range=(R('w0', 0, .02), R('w1', .02, .05)), windage_persist=B.choice('wp', [900, -1, 60]), on=mv['on']),
        'release': lambda: PointLineRelease(T0, (R('lon', -180, 180), R('lat', -80, 80), R('z', 0, 50)), num_elements=B.int('ne', lo=1, hi=99), end_release_time=T0 + secs(B.int('len', lo=1, hi=10**5)),
                                            end_position=(R('lon2', -180, 180), R('lat2', -80, 80), R('z2', 0, 50))),
    }
    from gnome.movers import CurrentMover, WindMover
    from gnome.environment import SteadyUniformCurrent
    from gnome.environment.running_average import RunningAverage
    from gnome.weatherers import Beaching, Langmuir, Biodegradation, Dissolution, HalfLifeWeatherer
    from gnome.spills.release import GridRelease
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.outputters import ShapeOutput, SpillJsonOutput
    from shapely.geometry import Polygon

    def steady():
        return SteadyUniformCurrent(R('speed', 0, 3), R('dir', 0, 360))

    def tide():
        fn = os.path.join(d, 'tide.txt')
        tide_file(B, fn)
        return Tide(fn, scale_factor=R('sf', .1, 3))
    unc = lambda: dict(uncertain_duration=R('ud', 1, 9e4), uncertain_time_delay=R('ut', 0, 5e4), scale_value=R('sv', .1, 3), default_num_method=B.choice('nm', ['Euler', 'RK2', 'RK4']))
    x, y = R('px', -150, 150), R('py', -70, 70)
    poly = lambda k: Polygon([(x + k, y), (x + k + R('pw', .1, .9), y), (x + k, y + R('ph', .1, .9))])
    out.update({
        'steady': steady, 'tide': tide,
        'current': lambda: CurrentMover(steady(), uncertain_along=R('al', 0, 1), uncertain_cross=R('cr', 0, 1), **unc(), **mv, **name),
        'pywind': lambda: WindMover(wind(), uncertain_speed_scale=R('uss', 0, 4), uncertain_angle_scale=R('ua', 0, 1), **unc(), **mv, **name),
        'beaching': lambda: Beaching((T0, T0 + secs(10**6)), units=B.choice('un', ['m^3', 'bbl']), timeseries=[(T0 + secs(3600 * (k + 1)), R('bv', 0, 99)) for k in range(B.int('bn', lo=1, hi=4))], water=water(), on=mv['on']),
        'langmuir': lambda: Langmuir(water(), wind(), **mv), 'biodeg': lambda: Biodegradation(Waves(wind(), water()), arctic=B.bool('arctic'), **mv),
        'dissolution': lambda: Dissolution(Waves(wind(), water()), wind(), **mv), 'halflife': lambda: HalfLifeWeatherer(half_lives=(R('hl', 1, 9e4),), **mv),
        'average': lambda: RunningAverage(wind(), past_hours_to_average=B.int('ph', lo=1, hi=9)),
        'grid-release': lambda: GridRelease(T0, ((x, y), (x + R('gw', .1, 3), y + R('gh', .1, 3))), (B.int('gnx', lo=1, hi=9), B.int('gny', lo=1, hi=9)), release_mass=R('gm', 0, 99)),
        'polygon-release': lambda: PolygonRelease(polygons=[poly(k) for k in range(2)], thicknesses=B.choice('pt', [None, [1., 3.]]), release_time=T0, num_elements=B.int('ne', lo=1, hi=99),
                                                  end_release_time=T0 + secs(B.int('len', lo=1, hi=10**5)), release_mass=R('gm', 0, 99)),
        'substance': lambda: NonWeatheringSubstance(standard_density=R('sd', 700, 1100), windage_range=(R('w0', 0, .02), R('w1', .02, .05)), windage_persist=B.choice('wp', [900, -1, 60])),
        'oil': lambda: oil(B, water()),
    })
    oo = dict(output_timestep=B.choice('ots', [None, secs(900), secs(7200)]), output_zero_step=B.bool('ozs'), output_last_step=B.bool('ols'), output_start_time=B.choice('ost', [None, T0 + secs(600)]))
    if kind == 'bna':
        fn = os.path.join(d, 'coast.bna')
        with open(fn, 'w') as f:
            x, y = R('bx', -50, 50), R('by', -50, 50)
            f.write('"coast","1",4\n' + '\n'.join('%r,%r' % (x + a, y + b) for a, b in [(0, 0), (1, 0), (1, 1), (0, 1)]) + '\n')
        return MapFromBNA(fn, raster_size=B.choice('rs', [1000, 20000]), refloat_halflife=R('rh', 0, 12))
    if kind in out:
        return out[kind]()
    return {'shape': lambda: ShapeOutput(os.path.join(d, 'x.zip'), **oo), 'spilljson': lambda: SpillJsonOutput(**oo), 'geojson': lambda: TrajectoryGeoJsonOutput(**oo), 'weathering': lambda: WeatheringOutput(**oo), 'budget': lambda: OilBudgetOutput(os.path.join(d, 'b.csv'), output_timestep=oo['output_timestep']),
            'netcdf': lambda: NetCDFOutput(os.path.join(d, 'x.nc'), which_data=B.choice('which', ['standard', 'most', 'all']), compress=B.bool('zip'), **oo), 'kmz': lambda: KMZOutput(os.path.join(d, 'x.kmz'), **oo)}[kind]()


SKIP = ('id', 'obj_type', 'filename', 'output_filename', 'time', 'time_ref', 'output_dir', '_time')


def same(a, b, how, tol=1e-9):
    """equal settings, numbers to rounding (directions and components convert both ways), nested objects by their own settings"""
    if a is b:
        return True
    if isinstance(a, np.ndarray) and a.dtype.names:
        return a.dtype == b.dtype and len(a) == len(b) and all(same(a[n], b[n], how, tol) for n in a.dtype.names)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (bool(np.allclose(a, b, rtol=tol, atol=tol)) if a.dtype.kind == 'f' else bool((a == b).all()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, how, tol) for x, y in zip(a, b))
    if isinstance(a, float) and not isinstance(b, bool):
        return b is not None and abs(a - b) <= tol * max(1., abs(a))
    if hasattr(a, '_schema'):
        return type(a) is type(b) and not different(a, b, how)
    return bool(a == b)


def different(o, o2, how):
    tol = 1e-7 if type(o).__name__ == 'GnomeOil' else 1e-9      # arrays of oil properties are saved with 8 digits
    for n in o._schema().children:
        if n.name in SKIP or not hasattr(o, n.name) or n.name == 'name' and (how == 'dict' or not getattr(n, 'save', True)):
            continue
        if how != 'dict' and getattr(n, 'save', True) is False:
            continue
        if not same(getattr(o, n.name), getattr(o2, n.name), how, tol):
            return '%s %s -> %s' % (n.name, getattr(o, n.name), getattr(o2, n.name))
    return None


def objects(B):
    """bounded: single objects with any settings, through an archive, a folder or a dictionary"""
    warnings.simplefilter('ignore')
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            o = some_object(B, d)
            how = B.choice('how', ['zip', 'memory', 'dict', 'json'] + ['dir'] * (len(o.name) < 200))
            before = o.serialize()
            o2 = there_and_back(B, o, d, how)
            what = '%s through %s' % (type(o).__name__, how)
            B.prove('kind', type(o2) is type(o), what)
            bad = different(o, o2, how)
            B.prove('settings-kept', not bad, '%s: %s' % (what, bad))
            B.prove('object-kept', o.serialize() == before, what)
        finally:
            os.chdir(cwd)


HARNESSES = [
    H('saved', saved, sym=False, conc=40, functions=['gnome.gnomeobject.GnomeId.save', 'gnome.model.Model.load_savefile', 'schemas of model, movers, weatherers, spills, maps'], conc_budget=60),
    H('data_files', data_files, sym=False, conc=60, functions=['ObjType._process_supporting_file', 'ObjType._load_supporting_file', 'gen_unique_filename']),
    H('objects', objects, sym=False, conc=1500, functions=['gnome.gnomeobject.GnomeId.save / load / serialize / deserialize', 'gnome.persist schemas'], conc_budget=60),
]
