"""Executes diagnostic callbacks on prescribed affine fields; traces for Diagnostics.tla."""
import datetime
import os
import shutil
from fractions import Fraction as F

import drv
import h5py
import numpy
from thetis import *
from thetis.callback import *
from vf import dec

cache = {}
DATE = datetime.datetime(2021, 3, 4, 5, 6, 7, tzinfo=datetime.timezone.utc)


def fl(x):
    return float(F(x))


def setup(sc):
    key = sc['group']
    if key in cache:
        return cache[key]
    m = sc['mesh']
    mesh2d = RectangleMesh(m['nx'], m['ny'], fl(m['Lx']), fl(m['Ly']), quadrilateral=m['quad'])
    bath = Function(get_functionspace(mesh2d, 'CG', 1), name='bath').assign(10.0)
    if sc['dim'] == 3:
        s = solver.FlowSolver(mesh2d, bath, m['layers'])
        o = s.options
        o.use_bottom_friction = False
        o.solve_salinity = True
        o.solve_temperature = True
    else:
        s = solver2d.FlowSolver2d(mesh2d, bath)
        o = s.options
        o.add_tracer_2d('tr1_2d', 'tracer one', 'Tr1')
        o.add_tracer_2d('tr2_2d', 'tracer two', 'Tr2')
        if m.get('family'):
            o.element_family = m['family']
    o.timestep = 1.0
    o.simulation_export_time = 1.0
    o.simulation_end_time = 1.0
    o.no_exports = True
    s.create_function_spaces()
    s.create_fields()
    z0 = s.mesh.coordinates.dat.data_ro.copy() if sc['dim'] == 3 else None
    cache[key] = (s, z0)
    return cache[key]


def setf(s, z0, name, v, coef):
    if name in ('scalar', 'series'):
        coef[name] = v
        return
    f = s.fields[name]
    fs = f.function_space()
    if name == 'tr2_2d':
        n = f.dat.data.size
        f.dat.data[:] = numpy.resize([fl(x) for x in v], n)
        return
    coef[name] = v
    mesh = fs.mesh()
    x = SpatialCoordinate(mesh)
    if name == 'uv_2d':
        e = as_vector([fl(c[0]) + fl(c[1])*x[0] + fl(c[2])*x[1] for c in v])
    else:
        e = fl(v[0]) + fl(v[1])*x[0] + fl(v[2])*x[1]
        if len(v) > 3:
            e = e + fl(v[3])*x[2]
    if fs.ufl_element().family() in ('Raviart-Thomas', 'RTCF'):
        f.project(e, solver_parameters={'ksp_type': 'cg', 'ksp_rtol': 1e-14, 'pc_type': 'jacobi'})
    else:
        # nodal values, without form compilation
        vfs = VectorFunctionSpace(mesh, fs.ufl_element().sub_elements[0] if fs.value_size > 1 else fs.ufl_element())
        key = ('xyz', id(fs))
        if key not in cache or len(v) > 3 and False:
            cache[key] = Function(vfs)
        xyz = cache[key].interpolate(x).dat.data_ro

        def aff(c):
            r = fl(c[0]) + fl(c[1])*xyz[:, 0] + fl(c[2])*xyz[:, 1]
            return r + fl(c[3])*xyz[:, 2] if len(c) > 3 else r
        if name == 'uv_2d':
            f.dat.data[:, 0] = aff(v[0])
            f.dat.data[:, 1] = aff(v[1])
        else:
            f.dat.data[:] = aff(v)


def move(s, z0, coef):
    e = [fl(x) for x in coef['elev_2d']]
    b = [fl(x) for x in coef['bathymetry_2d']]
    x, y, z = z0[:, 0], z0[:, 1], z0[:, 2]
    zmin = z0[:, 2].min()
    sig = z/abs(zmin) + 1.0        # 0 bed, 1 surface
    top = e[0] + e[1]*x + e[2]*y
    bot = -(b[0] + b[1]*x + b[2]*y)
    s.mesh.coordinates.dat.data[:, 2] = bot + sig*(top - bot)
    if hasattr(s.mesh.coordinates, 'dat'):
        s.mesh.clear_spatial_index() if hasattr(s.mesh, 'clear_spatial_index') else None


class Custom(DiagnosticCallback):
    def __init__(self, s, name, names, coef, **kw):
        self._n, self._v, self.coef = name, names, coef
        super().__init__(s, **kw)

    @property
    def name(self):
        return self._n

    @property
    def variable_names(self):
        return self._v

    def message_str(self, *args):
        return 'custom'

    def __call__(self):
        return [numpy.array([fl(x) for x in v]) for v in self.coef['series']]


class Acc(AccumulatorCallback):
    name = 'acc'


def contents(d):
    out = []
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not fn.startswith('diagnostic_'):
            continue
        with h5py.File(os.path.join(d, fn), 'r') as h:
            names = [k for k in h.keys() if k != 'time']
            n = h[names[0]].shape[0]
            out.append((fn, names, n, {k: h[k][:].reshape(h[k].shape[0], -1) for k in h.keys()}))
    return out


def execute(sc, rec):
    c = rec.cfg
    s, z0 = setup(sc)
    out = os.path.abspath('out')
    s.options.output_directory = out
    s.options.timestep = fl(c['dt'])
    s.options.simulation_initial_date = DATE if sc['date'] else None
    coef, cbs, info, ran = {}, {}, {}, {}

    def make(e):
        k, p = e['kind'], e['par']
        kw = {}
        if e['lo'] != 'none':
            kw['start_time'] = fl(e['lo'])
        if e['hi'] != 'none':
            kw['end_time'] = fl(e['hi'])
        gen = dict(kw, export_to_hdf5=e['file'] != 'none', append_to_log=e['log'])
        if e['single']:
            gen['hdf5_dtype'] = 'f'
        if k == 'volume2d':
            return VolumeConservation2DCallback(s, **gen)
        if k == 'volume3d':
            return VolumeConservation3DCallback(s, **gen)
        if k == 'mass2d':
            return TracerMassConservation2DCallback(p['field'], s, **gen)
        if k == 'consmass2d':
            return ConservativeTracerMassConservation2DCallback(p['field'], s, **gen)
        if k == 'mass3d':
            return TracerMassConservationCallback(p['field'], s, **gen)
        if k == 'overshoot':
            return TracerOvershootCallBack(p['field'], s, **gen)
        if k == 'detectors':
            return DetectorsCallback(s, [(fl(a), fl(b)) for a, b in p['xy']], p['fields'], p['name'],
                                     detector_names=p['dnames'] or None, **gen)
        if k == 'timeseries2d':
            return TimeSeriesCallback2D(s, p['fields'], fl(p['x']), fl(p['y']), p['name'], **kw)
        if k == 'timeseries3d':
            return TimeSeriesCallback3D(s, p['fields'], fl(p['x']), fl(p['y']), fl(p['z']), p['name'], **kw)
        if k == 'profile':
            return VerticalProfileCallback(s, p['fields'], fl(p['x'][0]), fl(p['y'][0]), p['name'], npoints=p['n'])
        if k == 'transect':
            kw = {}
            for q in ('zmin', 'zmax'):
                if p[q] != 'none':
                    kw['z_min' if q == 'zmin' else 'z_max'] = fl(p[q])
            return TransectCallback(s, p['fields'], [fl(v) for v in p['x']], [fl(v) for v in p['y']], p['name'],
                                    n_points_z=p['n'], **kw)
        if k == 'accumulator':
            return Acc(lambda: fl(coef['scalar']), s, **kw)
        return Custom(s, p['name'], e['names'], coef, array_dim=p['dim'], **gen)

    for e in sc['events']:
        e = dict(e)
        if e['ev'] == 'field':
            setf(s, z0, e['name'], e['v'], coef)
            if sc['dim'] == 3 and e['name'] == 'elev_2d':
                setf(s, z0, 'elev_cg_2d', e['v'], coef)
            rec('field', name=e['name'], v=e['v'])
            if sc['dim'] == 3 and e['name'] == 'elev_2d':
                # the mesh follows the surface; the other fields are set after this
                move(s, z0, coef)
            if e['name'] == 'tr2_2d':
                rec.ev[-1]['v'] = e['v'][:s.fields.tr2_2d.dat.data_ro.size]
        elif e['ev'] == 'new':
            cb = make(e)
            if e['append']:
                cb.set_write_mode('append')
            call = type(cb).__call__
            cbs[e['cb']] = cb
            info[e['cb']] = e
            rec('new', **{k: v for k, v in e.items() if k not in ('ev', 'log')})
        elif e['ev'] == 'eval':
            cb = cbs[e['cb']]
            s.simulation_time = fl(e['t'])
            ran = []
            orig = type(cb).__call__

            def spy(self, *a, **k):
                ran.append(1)
                return orig(self, *a, **k)
            sub = type(cb.__class__.__name__, (cb.__class__,), {'__call__': spy})
            cls = cb.__class__
            cb.__class__ = sub
            try:
                if e['manager']:
                    cm = CallbackManager()
                    cm.add(cb, 'export')
                    cm.evaluate('timestep')
                    cm.evaluate('export', index=None if e['idx'] < 0 else e['idx'])
                else:
                    cb.evaluate(**({} if e['idx'] < 0 else {'index': e['idx']}))
            finally:
                cb.__class__ = cls
            files = []
            for fn, names, n, data in contents(out):
                owner = [k for k, v in info.items() if v['file'] == fn]
                order = info[owner[0]]['names'] if owner and sorted(info[owner[0]]['names']) == sorted(names) else names
                files.append({'name': fn, 'names': order,
                              'entries': [{'t': dec(data['time'][i, 0], 16), 'v': [[dec(x, 13) for x in data[k][i]] for k in order]}
                                          for i in range(n)]})
            acc = dec(cb.get_val(), 16) if e['acc'] else 'none'
            rec('eval', cb=e['cb'], t=e['t'], idx=e['idx'], ran=len(ran) == 1, files=files, acc=acc)
            # attributes
            fn = os.path.join(out, info[e['cb']]['file'])
            if os.path.exists(fn):
                ok = True
                with h5py.File(fn, 'r') as h:
                    if sc['date']:
                        ok = ok and h.attrs['simulation_initial_date'] == DATE.isoformat() \
                            and h['time'].attrs['units'] == 'seconds since ' + DATE.isoformat()
                    p = info[e['cb']]['par']
                    if info[e['cb']]['kind'] == 'detectors':
                        for nm, xy in zip(info[e['cb']]['names'], p['xy']):
                            ok = ok and h[nm].attrs['x'] == fl(xy[0]) and h[nm].attrs['y'] == fl(xy[1])
                        ok = ok and [q.decode() for q in h.attrs['field_names']] == p['fields']
                    elif info[e['cb']]['kind'] in ('timeseries2d', 'timeseries3d'):
                        ok = ok and h.attrs['x'] == fl(p['x']) and h.attrs['y'] == fl(p['y'])
                rec('meta', ok=bool(ok))
    shutil.rmtree(out, ignore_errors=True)


drv.run(execute)
