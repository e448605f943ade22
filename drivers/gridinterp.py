"""Executes GridInterpolator and NetCDFLatLonInterpolator2d; traces for GridInterp.tla."""
import drv
from vf import dec
from fractions import Fraction as F
import random
import numpy
import netCDF4


def fl(x):
    return float(F(x)) if x != 'nan' else float('nan')


def grid(sc, rec):
    from thetis.interpolation import GridInterpolator
    c = sc['cfg']
    ax = [[fl(x) for x in a] for a in c['ax']]
    idx = [(i, j) for i in range(len(ax[0])) for j in range(len(ax[1]))] if c['dim'] == 2 else \
          [(i, j, k) for i in range(len(ax[0])) for j in range(len(ax[1])) for k in range(len(ax[2]))]
    random.Random(sc['shuffle']).shuffle(idx)
    src = numpy.array([[ax[d][i[d]] for d in range(c['dim'])] for i in idx])
    tgt = numpy.array([[fl(x) for x in p] for p in c['tgt']])
    src0, tgt0 = src.copy(), tgt.copy()
    kw = {}
    if c['nearest']:
        kw['fill_mode'] = 'nearest'
    if c['fill'] != 'nan' or sc['explicit']:
        kw['fill_value'] = fl(c['fill'])
    if c['norm']:
        kw['normalize'] = True
    gi = GridInterpolator(src, tgt, **kw)

    def values(d):
        if c['dim'] == 2:
            return numpy.array([fl(d[i[0]][i[1]]) for i in idx])
        q = [fl(x) for x in d]
        return q[0] + q[1]*src0[:, 0] + q[2]*src0[:, 1] + q[3]*src0[:, 2]
    first = None
    for d in sc['data']:
        v = values(d)
        v0 = v.copy()
        out = gi(v)
        if first is None:
            first = (v0, out.copy())
        rec('eval', **{'data' if c['dim'] == 2 else 'coef': d, 'out': [dec(x) for x in out]})
        rec('repeat', same=bool((v == v0).all() and (src == src0).all() and (tgt == tgt0).all()))
    again = gi(first[0])
    rec('repeat', same=bool(numpy.array_equal(again, first[1], equal_nan=True)))


class LinearCoords:
    """longitude = a0 + a1*x, latitude = b0 + b1*y"""
    def __init__(self, m):
        self.m = [fl(x) for x in m]

    def to_lonlat(self, x, y):
        a = self.m
        return a[0] + a[1]*x, a[2] + a[3]*y


def netcdf(sc, rec):
    from thetis import UnitSquareMesh, RectangleMesh, get_functionspace, Function
    from thetis.interpolation import NetCDFLatLonInterpolator2d, NetCDFSpatialInterpolator
    c, n = sc['cfg'], sc['nc']
    lon, lat = [numpy.array([fl(x) for x in a]) for a in c['ax']]
    nlon, nlat = len(lon), len(lat)

    def write(fn, data):
        """data[k][v][i][j]: time k, variable v, longitude i, latitude j"""
        jlat = numpy.arange(nlat)[::-1] if n['lat_desc'] else numpy.arange(nlat)
        with netCDF4.Dataset(fn, 'w') as d:
            d.createDimension('time', None)
            d.createDimension('jj', nlat)
            d.createDimension('ii', nlon)

            def coord(kind, vals, dim):
                if n['two_d']:
                    a = numpy.meshgrid(lon, lat[jlat])[0 if kind == 'longitude' else 1]
                    v = d.createVariable(n['names'][kind], 'f8', ('jj', 'ii'))
                    v[:] = a
                else:
                    v = d.createVariable(n['names'][kind], 'f8', (dim,))
                    v[:] = vals
                if n['attr'] == 'standard_name':
                    v.standard_name = kind
                elif n['attr'] == 'long_name':
                    v.long_name = kind.capitalize()
            for k in n['order']:
                if k == 'lat':
                    coord('latitude', lat[jlat], 'jj')
                elif k == 'lon':
                    coord('longitude', lon, 'ii')
                else:
                    v = d.createVariable('v%d' % k, 'f8', ('time', 'jj', 'ii'))
                    for t in range(len(data)):
                        a = numpy.array([[fl(x) for x in row] for row in data[t][k]])     # (lon, lat)
                        v[t, :, :] = a.T[jlat, :]
    mesh = UnitSquareMesh(*n['cells'])
    fs = get_functionspace(mesh, *n['space'])
    from firedrake import SpatialCoordinate
    x, y = SpatialCoordinate(mesh)
    cs = LinearCoords(n['map'])
    fx = Function(fs).interpolate(x).dat.data_ro_with_halos.copy()
    fy = Function(fs).interpolate(y).dat.data_ro_with_halos.copy()
    lo, la = cs.to_lonlat(fx, fy)
    rec('targets', tgt=[[dec(a, 15), dec(b, 15)] for a, b in zip(lo, la)])
    kw = {}
    if c['nearest']:
        kw['fill_mode'] = 'nearest'
    if c['fill'] != 'nan':
        kw['fill_value'] = fl(c['fill'])
    for f, data in enumerate(sc['data']):
        write('f%d.nc' % f, data)
    interp = NetCDFLatLonInterpolator2d(fs, cs, **kw)
    for q in sc['queries']:
        names = ['v%d' % v for v in q['vars']]
        if q['wrap']:
            out = NetCDFSpatialInterpolator(interp, names)('f%d.nc' % q['file'], q['time'])
        else:
            out = interp.interpolate('f%d.nc' % q['file'], names, q['time'])
        rec('repeat', same=len(out) == len(names))
        for v, o in zip(q['vars'], out):
            rec('eval', data=sc['data'][q['file']][q['time']][v], out=[dec(z) for z in o])


def names(sc, rec):
    from thetis.interpolation import get_ncvar_name
    with netCDF4.Dataset('n.nc', 'w') as d:
        for v in sc['vars']:
            w = d.createVariable(v['name'], 'f8', ())
            for a in ('standard_name', 'long_name'):
                if a in v:
                    setattr(w, a, v[a])
        for q in sc['lookups']:
            try:
                found = get_ncvar_name(d, *q['args'])
            except ValueError:
                found = ''
            rec('name', found=found, want=q['want'])


def execute(sc, rec):
    {'grid': grid, 'nc': netcdf, 'names': names}[sc['kind']](sc, rec)


drv.run(execute)
