"""
Executes runs of the 2D/3D time loop with a time stepper that only counts (field value = number of
steps), so that the loop, exporters and callbacks of the solver are observed on their own.
Configurations: see RunLoop.tla and lib/gen_runloop.py.
"""
import datetime
import os
import re
from fractions import Fraction

import drv
import h5py
import numpy
from thetis import *
from vf import rat

BASE = datetime.datetime(2020, 2, 28, 12, 0, 0, tzinfo=datetime.timezone.utc)
_mesh = {}


class CountingStepper:
    """Adds one to every prognostic field per step."""
    def __init__(self, fields, rec, obs):
        self.fields, self.rec, self.obs = fields, rec, obs
        self.count = 0

    def initialize(self, *a, **k):
        pass

    def advance(self, t, update_forcings=None, *args, **kw):
        self.count += 1
        if self.count > 200:
            raise RuntimeError('more than 200 steps')
        self.rec('advance', targ=rat(float(t)), **self.obs())
        if update_forcings is not None:
            update_forcings(t)
        for f in self.fields:
            f.dat.data[:] += 1.0


class Probe(DiagnosticCallback):
    name = 'probe'
    variable_names = ['ver']

    def __init__(self, name, solver, rec, obs, **kw):
        self.name = name
        self.rec, self.obs = rec, obs
        super().__init__(solver, **kw)

    def __call__(self):
        o = self.obs()
        self.rec('cb', name=self.name, **o)
        return (float(o['ver']),)

    def message_str(self, *args):
        return 'probe %s' % self.name


def num(x):
    return float(Fraction(x))


def make(sc, outdir, mesh=None):
    mode = sc['mode']
    if mesh is None:
        if 'm' not in _mesh:
            _mesh['m'] = RectangleMesh(2, 1, 2e3, 1e3)
        mesh = _mesh['m']
    bath = Function(get_functionspace(mesh, 'CG', 1)).assign(10.0)
    if mode == '3d':
        s = solver.FlowSolver(mesh, bath, 2)
    else:
        s = solver2d.FlowSolver2d(mesh, bath)
    o = s.options
    o.output_directory = outdir
    o.simulation_export_time = num(sc['texp'])
    if sc['dates'] in ('end', 'both'):
        o.simulation_initial_date = BASE
        o.simulation_end_date = BASE + datetime.timedelta(seconds=num(sc['tend']))
        if sc['dates'] == 'both':
            o.simulation_end_time = 0.5*num(sc['tend'])
    else:
        o.simulation_end_time = num(sc['tend'])
    o.timestep = num(sc['dtreq'])
    if mode == '2d':
        o.swe_timestepper_type = 'CrankNicolson'
    else:
        o.timestepper_options.use_automatic_timestep = False
        o.timestep_2d = num(sc['dtreq'])
        o.horizontal_velocity_scale = Constant(1e-3)
        o.use_bottom_friction = False
        o.solve_salinity = False
        o.solve_temperature = False
        o.use_limiter_for_tracers = False
        o.use_limiter_for_velocity = False
    o.no_exports = sc['noexp']
    o.fields_to_export = sc['vf']
    o.fields_to_export_hdf5 = sc['hf']
    o.check_volume_conservation_2d = False
    return s


def fname(f):
    return field_metadata[f]['filename']


def listing(outdir, sc):
    """Indices of the exports found on disk, one list per exported field."""
    res = []
    for f in sc['hf']:
        pat = re.compile(re.escape(fname(f)) + r'_(\d{5})\.h5$')
        d = os.path.join(outdir, 'hdf5')
        res.append(sorted(int(pat.match(x).group(1)) for x in os.listdir(d) if pat.match(x)) if os.path.isdir(d) else [])
    for f in sc['vf']:
        pat = re.compile(re.escape(fname(f)) + r'_(\d+)\.vtu$')
        d = os.path.join(outdir, fname(f), fname(f) + '')
        if not os.path.isdir(d):
            d = os.path.join(outdir, fname(f))
        found = set()
        for root, _, names in os.walk(d):
            for x in names:
                m = pat.match(x)
                if m:
                    found.add(int(m.group(1)))
        res.append(sorted(found))
    return res


def execute(sc, rec):
    c = rec.cfg
    out = os.path.abspath('out')
    rs = c['rs']
    mesh, src = None, None
    if rs['on']:
        first = dict(c, cbs=[], func=False, gen=False, texp=rs['texp1'], tend=rs['tend1'])
        src = out if rs['same'] else os.path.abspath('spinup')
        run(first, src, None, None, None)
        mesh = read_mesh_from_checkpoint(src)
    run(c, out, rec, mesh, src)


def run(c, out, rec, mesh, src):
    rs = c['rs'] if src else None
    s = make(c, out, mesh)
    if c['dates'] == 'stored' and not rs:
        s.options.simulation_initial_date = BASE

    def obs():
        return {'t': rat(float(s.simulation_time)), 'it': int(s.iteration), 'ie': int(s.i_export),
                'ver': version(), 'files': listing(out, c)}

    def version():
        d = s.fields.elev_2d.dat.data_ro
        v = float(d.mean())
        if not numpy.allclose(d, round(v), atol=1e-6):
            return -1
        return int(round(v))

    if rs:
        kw = {}
        if not rs['same']:
            kw['outputdir'] = src
        if rs['t'] != 'none':
            kw['t'] = num(rs['t'])
        if rs['iter'] >= 0:
            kw['iteration'] = rs['iter']
        if rs['iexp'] >= 0:
            kw['i_export'] = rs['iexp']
        s.load_state(rs['i'], **kw)
    else:
        s.assign_initial_conditions(elev=Constant(0.0))
    s.timestepper = CountingStepper(list(s.fields.solution_2d.subfunctions), rec or (lambda *a, **k: None),
                                    obs if rec else dict)
    for cb in c['cbs']:
        kw = {}
        if cb['lo'] != 'none':
            kw['start_time'] = num(cb['lo'])
        if cb['hi'] != 'none':
            kw['end_time'] = num(cb['hi'])
        p = Probe(cb['name'], s, rec, obs, export_to_hdf5=False, append_to_log=False, **kw)
        s.add_callback(p, cb['when'])
    if rec is None:
        s.iterate()
        return
    rec('begin', **obs())
    func = None
    if c['func']:
        def func():
            rec('func', **obs())
    if c['gen']:
        for v in s.create_iterator(export_func=func):
            rec('yield', val=rat(float(v)))
    else:
        s.iterate(export_func=func)
    rec('end', **obs())
    # contents of the exported files this run may have written
    if 'elev_2d' in c['hf']:
        ix = listing(out, dict(c, hf=['elev_2d'], vf=[]))[0]
        first = 0
        if rs and rs['same']:
            first = (rs['iexp'] if rs['iexp'] >= 0 else rs['i']) + 1
        for i in ix:
            if i < first or i > s.i_export:
                continue
            fn = os.path.join(out, 'hdf5', '%s_%05d.h5' % (fname('elev_2d'), i))
            with h5py.File(fn, 'r') as h:
                t = rat(float(h.attrs['time'])) if 'time' in h.attrs else 'none'
                date = h.attrs.get('initial_time_iso', 'none')
                date = date.decode() if isinstance(date, bytes) else str(date)
            with CheckpointFile(fn, 'r') as ck:
                g = ck.load_function(ck.load_mesh('firedrake_default'), 'elev_2d')
                v = float(g.dat.data_ro.mean())
            rec('file', idx=i, t=t, date=date, ver=int(round(v)))


if __name__ == '__main__':
    drv.run(execute)
