"""Executes the netCDF time series classes; traces for TimeSeries.tla."""
import drv
from vf import dec
from fractions import Fraction as F
import datetime
import os
import numpy
import netCDF4
import pytz
from thetis.interpolation import (NetCDFTimeSearch, NetCDFTimeParser, NetCDFTimeSeriesReader, LinearTimeInterpolator,
                                  NetCDFTimeSeriesInterpolator, DailyFileTimeSearch, FileTreeReader)
from thetis.timezone import FixedTimeZone

EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
UNITS = {1: 'seconds', 60: 'minutes', 3600: 'hours', 86400: 'days'}


def fl(x):
    return float(F(x))


def text_date(base, tz):
    d = EPOCH + datetime.timedelta(seconds=base + 3600*tz)
    s = d.strftime('%Y-%m-%d %H:%M:%S')
    if tz:
        s += '%s%02d' % ('-' if tz < 0 else '+', abs(tz))
    return s


def write(fn, f, shape, tdim, tname, nvar):
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension(tname, None)
        tv = d.createVariable(tname, 'f8', (tname,))
        tv.units = '%s since %s' % (UNITS[int(f['unit'])], text_date(int(f['base']), f['tz']))
        tv.calendar = f['calendar']
        dims = [tname]
        for k, n in enumerate(shape):
            d.createDimension('x%d' % k, n)
        dims = ['x%d' % k for k in range(len(shape))]
        dims.insert(tdim, tname)
        n = len(f['stamps'])
        tv[:] = [fl(x) for x in f['stamps']]
        for v in range(nvar):
            dv = d.createVariable('v%d' % v, 'f8', tuple(dims))
            vals = numpy.array([fl(f['data'][i][v]) for i in range(n)])
            # the series is stored at every point x, with offsets that are removed again by the driver
            full = vals.reshape((n,) + (1,)*len(shape)) + off(shape)
            dv[:] = numpy.moveaxis(full, 0, tdim)


def off(shape):
    return numpy.arange(int(numpy.prod(shape)), dtype=float).reshape(shape) if shape else 0.0


def execute(sc, rec):
    c = sc['cfg']
    files = c['files']
    nvar = len(files[0]['data'][0])
    init = EPOCH + datetime.timedelta(seconds=int(c['init']))
    init = init.astimezone(FixedTimeZone(c['tz'], 'TST') if c['tz'] else pytz.utc)
    shape, tdim, tname = tuple(c['shape']), c['tdim'], c['tname']
    names = []
    tree = c.get('tree', False)
    pattern = 'f_*/series.nc' if tree else 'f_*.nc'
    for k, f in enumerate(files):
        if c['daily']:
            d = EPOCH + datetime.timedelta(seconds=int(F(f['base']) + F(f['unit'])*F(f['stamps'][0])) + 3600*c['ctz'])
            os.makedirs('%04d' % d.year, exist_ok=True)
            names.append('%04d/d_%04d%02d%02d.nc' % (d.year, d.year, d.month, d.day))
        else:
            names.append(('f_%s/series.nc' if tree else 'f_%s.nc') % f['name'])
            if tree:
                os.makedirs('f_%s' % f['name'])
        write(names[-1], f, shape, tdim, tname, nvar)
    if c['daily']:
        search = DailyFileTimeSearch('{year:04d}/d_{year:04d}{month:02d}{day:02d}.nc', init, center_hour=c['hour'],
                                     center_timezone=FixedTimeZone(c['ctz'], 'C') if c['ctz'] else pytz.utc)
    else:
        search = NetCDFTimeSearch(pattern, init, NetCDFTimeParser, time_variable_name=tname)
    variables = ['v%d' % v for v in range(nvar)]
    scal = [fl(x) for x in c['scalars']] or None
    if scal is None or c['daily']:
        interp = LinearTimeInterpolator(search, NetCDFTimeSeriesReader(variables, time_variable_name=tname))
    else:
        interp = NetCDFTimeSeriesInterpolator(pattern, variables, init, time_variable_name=tname, scalars=scal)
    parsers = {}

    def point(v, q):
        """value of the series at every point of the array; they must all agree"""
        a = numpy.asarray(v, dtype=float)
        if shape:
            sc = 1.0 if scal is None or c['daily'] else scal[q]
            a = numpy.squeeze(a) - sc*numpy.squeeze(off(shape))
        a = a.ravel()
        if a.size != int(numpy.prod(shape)) or numpy.ptp(a) > 1e-8*(1 + abs(a).max()):
            return 'nan'
        return dec(a[0])

    for q in sc['queries']:
        t = fl(q[1]) if len(q) > 1 else None
        if q[0] == 'find':
            try:
                fn, i, tm = search.find(t, previous=q[2])
                rec('find', t=q[1], prev=q[2], res='ok', file=names.index(str(fn)) + 1, i=int(i), time=dec(tm, 15))
            except Exception as e:
                rec('find', t=q[1], prev=q[2], res='err', what=type(e).__name__)
        elif q[0] == 'interp':
            try:
                v = interp(t)
                rec('interp', t=q[1], res='ok', v=[point(x, k) for k, x in enumerate(v)])
            except Exception as e:
                rec('interp', t=q[1], res='err', what=type(e).__name__ + str(e)[:100])
        elif q[0] == 'todate':
            d = search.simulation_time_to_datetime(t)
            rec('todate', t=q[1], epoch=dec((d - EPOCH).total_seconds(), 16))
        elif q[0] == 'parser' and not c['daily']:
            k = q[1] - 1
            p = parsers.setdefault(k, NetCDFTimeParser(names[k], time_variable_name=tname))
            rec('parser', file=q[1], nb=int(p.nb_steps), start=dec((p.get_start_time() - EPOCH).total_seconds(), 16),
                end=dec((p.get_end_time() - EPOCH).total_seconds(), 16))
        elif q[0] == 'stamp' and not c['daily']:
            k = q[3] - 1
            p = parsers.setdefault(k, NetCDFTimeParser(names[k], time_variable_name=tname))
            te = fl(F(c['init']) + F(q[1]))
            arg = EPOCH + datetime.timedelta(seconds=te) if q[4] else te
            try:
                i = int(p.find_time_stamp(arg, previous=q[2]))
                rec('stamp', t=str(F(c['init']) + F(q[1])), prev=q[2], file=q[3], res='ok', i=i)
            except IndexError:
                rec('stamp', t=str(F(c['init']) + F(q[1])), prev=q[2], file=q[3], res='err', i=-1)


drv.run(execute)
