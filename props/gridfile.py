"""A small current file on a regular grid, written to a scratch folder, for the compiled gridded movers"""
import os
import shutil
import tempfile
import numpy as np


class Scratch:
    """a folder that goes away"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pyvc_grid')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def write(folder, start, hours, u, v, half=2., n=9):
    """u, v: a value per time (constant in space) or (time, n, n); the grid covers [-half, half] in both directions"""
    import netCDF4 as nc
    f = os.path.join(folder, 'cur.nc')
    ds = nc.Dataset(f, 'w', format='NETCDF3_CLASSIC')
    ds.createDimension('lat', n)
    ds.createDimension('lon', n)
    ds.createDimension('time', None)
    ds.grid_type = 'REGULAR'
    for nm, un in (('lat', 'degrees_north'), ('lon', 'degrees_east')):
        x = ds.createVariable(nm, 'f4', (nm,))
        x.units = un
        x[:] = np.linspace(-half, half, n)
    t = ds.createVariable('time', 'f8', ('time',))
    t.units = 'hours since %s' % start.strftime('%Y-%m-%d %H:%M:%S')
    t[:] = hours
    for nm, a in (('water_u', u), ('water_v', v)):
        x = ds.createVariable(nm, 'f4', ('time', 'lat', 'lon'))
        x.units = 'm/s'
        a = np.asarray(a, float)
        x[:] = a if a.ndim == 3 else np.ones((len(hours), n, n)) * a[:, None, None]
    ds.close()
    return f
