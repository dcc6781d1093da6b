"""Random whole models (bounded stand-in): built through the public API only, run step by step under observation."""
import datetime
import warnings
from .common import *
from gnome.model import Model
from gnome.basic_types import oil_status, fate

T0 = datetime.datetime(2021, 3, 5, 7)
TD = datetime.timedelta
IN, LAND, OFF, GONE = oil_status.in_water, oil_status.on_land, oil_status.off_maps, oil_status.to_be_removed
_OIL = []


def oil():
    from gnome.spills.gnome_oil import GnomeOil
    if not _OIL:
        _OIL.append(GnomeOil('oil_ans_mp'))
    import copy
    return copy.deepcopy(_OIL[0])


def secs(s):
    return TD(seconds=s)


def rng_of(B, start, total, edge=None):
    """an active range: mostly open, sometimes closed around parts of the run"""
    from gnome.utilities.inf_datetime import InfDateTime
    k = B.choice('range', ['open', 'open', 'open', 'late', 'early', 'mid'])
    a, b = sorted(B.int('edge', lo=0, hi=max(total, 2)) for _ in range(2))
    if b == a:
        b += 1
    lo = InfDateTime('-inf') if k in ('open', 'early') else start + secs(a)
    hi = InfDateTime('inf') if k in ('open', 'late') else start + secs(b)
    return (lo, hi)


class World:
    pass


def raster_map(B, w):
    """land blobs on a W x H raster over a lon/lat box; returns the map"""
    from gnome.maps import RasterMap
    from gnome.utilities.projections import FlatEarthProjection, GeoProjection
    W, H_ = B.int('W', lo=8, hi=60), B.int('Hh', lo=8, hi=60)
    r = np.zeros((W, H_), dtype=np.uint8)
    for _ in range(B.int('blobs', lo=0, hi=6)):
        x, y = B.int('bx', lo=0, hi=W - 1), B.int('by', lo=0, hi=H_ - 1)
        a, b = B.choice('ba', [1, 1, 2, 5, 30]), B.choice('bb', [1, 1, 2, 5, 30])
        r[x:x + a, y:y + b] = 1
    cx, cy = B.choice('cx', [-70., 0., 3., 150.]), B.choice('cy', [0., 28., -45., 60.])
    scale = B.choice('px', [0.001, 0.01, 0.05])
    box = ((cx - W * scale / 2, cy - H_ * scale / 2), (cx + W * scale / 2, cy + H_ * scale / 2))
    P = B.choice('proj', [FlatEarthProjection, GeoProjection])
    proj = P(box, (W, H_))
    kw = {}
    m = B.choice('bounds', [0.4, 0.8, 1.5, None])
    if m:
        kw['map_bounds'] = np.array([(cx - m * W * scale, cy - m * H_ * scale), (cx - m * W * scale, cy + m * H_ * scale),
                                     (cx + m * W * scale, cy + m * H_ * scale), (cx + m * W * scale, cy - m * H_ * scale)])
    mp = RasterMap(raster=r, projection=proj, refloat_halflife=B.choice('half', [-1., 0., 0.2, 1., 6.]), **kw)
    rt = B.choice('ratios', [None, (16, 1), (4, 1), (8, 2, 1), (5, 1), (1,)])
    if rt:
        mp.ratios = np.array(rt, dtype=np.int32)
    water = np.argwhere(r == 0)
    w.raster, w.proj, w.scale = r, proj, scale
    w.water = water
    w.where = lambda: tuple(proj.to_lonlat(np.array([water[B.int('wi', lo=0, hi=len(water) - 1)]]))[0]) if len(water) else (cx, cy)
    w.size = scale * min(W, H_) * 111e3
    return mp


def plain_map(B, w):
    from gnome.maps import GnomeMap
    cx, cy = B.choice('cx', [-70., 0., 3., 150.]), B.choice('cy', [0., 28., -45., 60.])
    w.where = lambda: (cx + B.real('dx', lo=-.05, hi=.05), cy + B.real('dy', lo=-.05, hi=.05))
    w.size = 10e3
    if B.bool('bounded'):
        return GnomeMap(map_bounds=np.array([(cx - .1, cy - .1), (cx - .1, cy + .1), (cx + .1, cy + .12), (cx + .1, cy - .1)]))
    return GnomeMap()


KINDS = ('simple', 'random', 'wind', 'rise', 'random3d', 'pywind', 'current')


def movers(B, w, n=3, allowed=KINDS):
    from gnome.movers import CurrentMover, WindMover, SimpleMover, RandomMover, constant_point_wind_mover, RiseVelocityMover, RandomMover3D
    out = []
    T = w.step * w.n
    for _ in range(B.int('movers', lo=0, hi=n)):
        k = B.choice('mover', list(allowed))
        kw = dict(active_range=rng_of(B, w.start, T), on=not B.choice('off', [0, 0, 0, 0, 1]))
        v = w.size / max(T, 1)
        if k == 'simple':
            out.append(SimpleMover((B.real('u', lo=-v, hi=v), B.real('v', lo=-v, hi=v), B.choice('vz', [0., 0., .001, -.001, .05])), **kw))
        elif k == 'random':
            out.append(RandomMover(diffusion_coef=B.choice('diff', [100., 1e5, 1e6]), **kw))
        elif k == 'wind':
            m = constant_point_wind_mover(B.real('ws', lo=0, hi=30), B.real('wd', lo=0, hi=360), 'm/s')
            m.active_range, m.on = kw['active_range'], kw['on']
            out.append(m)
        elif k == 'pywind':
            from gnome.environment import constant_wind
            m = WindMover(wind=constant_wind(B.real('ws', lo=0, hi=30), B.real('wd', lo=0, hi=360), 'm/s'), uncertain_duration=B.choice('ud', [900., 7200.]),
                          uncertain_time_delay=B.choice('ut', [0., 0., 1800.]), default_num_method=B.choice('meth', ['Euler', 'RK2', 'RK4']))
            m.active_range, m.on = kw['active_range'], kw['on']
            out.append(m)
        elif k == 'current':
            from gnome.environment import SteadyUniformCurrent
            m = CurrentMover(current=SteadyUniformCurrent(B.real('cs', lo=0, hi=v), B.real('cd', lo=0, hi=360)), uncertain_duration=B.choice('ud', [900., 7200.]),
                             uncertain_time_delay=B.choice('ut', [0., 0., 1800.]), default_num_method=B.choice('meth', ['Euler', 'RK2', 'RK4']))
            m.active_range, m.on = kw['active_range'], kw['on']
            out.append(m)
        elif k == 'rise':
            out.append(RiseVelocityMover(**kw))
        else:
            out.append(RandomMover3D(vertical_diffusion_coef_above_ml=B.choice('vd', [5, 500]), mixed_layer_depth=B.choice('mld', [2., 10.]),
                                     surface_is_allowed=B.bool('surf'), **kw))
    return out


def spills(B, w, n=2, weather=None, depth=True):
    from gnome.spills import point_line_spill
    out = []
    for i in range(B.int('spills', lo=1, hi=n)):
        ne = B.int('ne', lo=1, hi=25)
        late = B.choice('late', [0, 0, 0, w.step // 3, w.step, w.step * 2 + 1])
        rel = w.start + secs(0 if w.back else late)
        end = None
        if B.choice('cont', [0, 0, 1]) and not w.back:
            dur = B.int('dur', lo=1, hi=w.step * max(1, min(ne, w.n)))
            end = rel + secs(dur)
        p = w.where()
        kw = {}
        if B.bool('line'):
            q = w.where()
            kw['end_position'] = (q[0], q[1], 0.)
        z = B.choice('z', [0., 0., 5.]) if depth else 0.
        if 'end_position' in kw:
            kw['end_position'] = kw['end_position'][:2] + (z,)
        sub = w.oil if weather else w.sub
        s = point_line_spill(ne, (p[0], p[1], z), rel, end_release_time=end, substance=sub, amount=B.real('amt', lo=1, hi=500),
                             units=B.choice('un', ['kg', 'bbl', 'm^3', 'tonnes']) if weather else 'kg',
                             **kw)
        if not B.choice('spoff', [0, 0, 0, 0, 0, 1]):
            pass
        else:
            s.on = False
        out.append(s)
    return out


def weatherers(B, w):
    from gnome.environment import Water, Waves, constant_wind
    from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Skimmer, Burn, ChemicalDispersion)
    wind = constant_wind(B.choice('wspd', [0., 2., 8., 20.]), B.real('wdir', lo=0, hi=360), 'm/s')
    water = Water(B.choice('temp', [275., 288., 300.]), salinity=B.choice('sal', [0., 15., 35.]))
    waves = Waves(wind, water)
    T = w.step * w.n
    out = []
    for k in ('evap', 'disp', 'emul', 'fay', 'skim', 'burn', 'chem'):
        if not B.choice('use_' + k, [0, 1]):
            continue
        a, b = sorted(B.int('edge', lo=0, hi=max(T, 2)) for _ in range(2))
        r = (w.start + secs(a), w.start + secs(max(b, a + 1)))
        if k == 'evap':
            out.append(Evaporation(water, wind, active_range=rng_of(B, w.start, T), on=not B.choice('off', [0, 0, 0, 1])))
        elif k == 'disp':
            out.append(NaturalDispersion(waves, water, active_range=rng_of(B, w.start, T), on=not B.choice('off', [0, 0, 0, 1])))
        elif k == 'emul':
            out.append(Emulsification(waves))
        elif k == 'fay':
            out.append(FayGravityViscous(water=water))
        elif k == 'skim':
            out.append(Skimmer(B.real('skam', lo=1, hi=200), B.choice('sku', ['bbl', 'kg']), efficiency=B.real('ske', lo=.01, hi=1), active_range=r, water=water))
        elif k == 'burn':
            out.append(Burn(area=B.real('bar', lo=10, hi=1e4), thickness=B.real('bth', lo=.003, hi=.1), active_range=r, efficiency=B.real('bef', lo=.1, hi=1),
                            water=water, wind=wind))
        elif k == 'chem':
            out.append(ChemicalDispersion(fraction_sprayed=B.real('fs', lo=.05, hi=1), efficiency=B.real('ce', lo=.05, hi=1), active_range=r, waves=waves))
    w.env = [wind, water, waves]
    return out


def build(B, land=None, weather=None, uncertain=None, backward=False, nmov=3, nspill=2, maxsteps=8, allowed=KINDS,
          depth=True, steps=(60, 300, 900, 901, 3600)):
    warnings.simplefilter('ignore')
    from gnome.utilities import rand
    w = World()
    w.seed = B.int('seed', lo=1, hi=10**6)
    rand.seed(w.seed)
    w.start = T0
    w.step = B.choice('step', list(steps))
    w.n = B.int('steps', lo=1, hi=maxsteps)
    w.unc = B.bool('uncertain') if uncertain is None else uncertain
    w.weather = weather
    kw = {}
    w.back = bool(backward and not weather and B.choice('backwards', [0, 0, 1]))
    if w.back:
        # the compiled vertical movers take no negative step, weathering is refused in backward runs
        allowed = [x for x in allowed if x not in ('rise', 'random3d')]
        kw['run_backwards'] = True
    m = w.model = Model(start_time=w.start, time_step=w.step, duration=secs(w.step * w.n), uncertain=w.unc, cache_enabled=False, **kw)
    isl = B.bool('land') if land is None else land
    w.land = isl
    w.raster = None
    w.map = m.map = raster_map(B, w) if isl else plain_map(B, w)
    if weather:
        w.oil = oil()
        ws = weatherers(B, w)
        m.environment += w.env
        m.weatherers += ws
    else:
        from gnome.spills.substance import NonWeatheringSubstance
        w.sub = NonWeatheringSubstance(windage_persist=B.choice('wp', [900, -1, 3600]))
    sps = spills(B, w, nspill, weather, depth)
    m.spills += sps
    w.spills = sps
    w.movers = movers(B, w, nmov, allowed)
    m.movers += w.movers
    return w


class Obs:
    """one container's state at one moment: copies of every array"""
    def __init__(self, sc):
        self.a = {k: np.array(v, copy=True) for k, v in sc._data_arrays.items()}
        self.mb = dict(sc.mass_balance)

    def __getitem__(self, k):
        return self.a[k]

    def __contains__(self, k):
        return k in self.a

    def __len__(self):
        return len(self.a['id'])


def run(w, before_move=None, after_move=None, after_step=None):
    """steps the model to its end; hooks see the real containers"""
    m = w.model
    m.rewind()
    out = []
    while True:
        try:
            m.step()
        except StopIteration:
            break
        if after_step:
            after_step(m)
        out.append([Obs(sc) for sc in m.spills.items()])
        if len(out) > w.n + 5:
            break
    return out
