"""
Executes steps of the coupled 2D time integrators of FlowSolver2d with components that add known
amounts to their fields.  Configurations and events: see Coupled2D.tla.
"""
import drv
import numpy
from fractions import Fraction
from thetis import *
from vf import rat

_mesh = {}
OTHER = '1000003'


def num(x):
    return float(Fraction(x))


class Probe(DiagnosticCallback):
    name = 'probe'
    variable_names = ['x']

    def __init__(self, solver, fn):
        self.fn = fn
        super().__init__(solver, export_to_hdf5=False, append_to_log=False)

    def __call__(self):
        self.fn()
        return (0.0,)

    def message_str(self, *args):
        return ''


def execute(sc, rec):
    c = sc['cfg']
    if not _mesh:
        _mesh[0] = RectangleMesh(2, 1, 2e3, 1e3)
    mesh = _mesh[0]
    bath = Function(get_functionspace(mesh, 'CG', 1)).assign(10.0)
    s = solver2d.FlowSolver2d(mesh, bath)
    o = s.options
    o.output_directory = 'out'
    o.no_exports = True
    o.polynomial_degree = c['deg']
    o.timestep = num(c['dt'])
    o.simulation_export_time = num(c['dt'])*c['steps']
    o.simulation_end_time = num(c['t0']) + num(c['dt'])*c['steps']
    o.tracer_only = c['tracerOnly']
    o.use_limiter_for_tracers = c['lim']
    o.tracer_picard_iterations = c['p']
    ty = c['types']
    o.swe_timestepper_type = ty['swe']
    o.tracer_timestepper_type = ty['tracer']
    if ty['swe'] == 'PressureProjectionPicard':
        o.element_family = 'dg-cg'
    so = o.sediment_model_options
    so.solve_suspended_sediment = c['sed']
    so.solve_exner = c['exner']
    if c['sed'] or c['exner']:
        so.average_sediment_size = Constant(1e-4)
        so.bed_reference_height = Constant(3e-4)
        so.morphological_viscosity = Constant(1e-6)
        o.nikuradse_bed_roughness = Constant(3e-4)
        so.use_bedload = False
        so.sediment_timestepper_type = ty['sediment']
        so.exner_timestepper_type = ty['exner']
    nh = o.nh_model_options
    nh.solve_nonhydrostatic_pressure = c['nh']
    nh.update_free_surface = c['upd']
    nh.free_surface_timestepper_type = ty['fs']
    for opt in (o.swe_timestepper_options, o.tracer_timestepper_options, so.sediment_timestepper_options,
                so.exner_timestepper_options, nh.free_surface_timestepper_options):
        if hasattr(opt, 'use_automatic_timestep'):
            opt.use_automatic_timestep = False
    for y in c['systems']:
        if len(y['labels']) == 1:
            o.add_tracer_2d(y['labels'][0], 'Tracer ' + y['labels'][0], 'Tr' + y['labels'][0].replace('_', ''))
        else:
            o.add_tracer_system_2d(y['labels'], ['Tracer ' + x for x in y['labels']],
                                   ['Tr' + x.replace('_', '') for x in y['labels']])
    labels = [x for y in c['systems'] for x in y['labels']]
    s.initialize()
    f = s.fields
    uv, elev = f.solution_2d.subfunctions

    def val(fun, shift=0.0):
        d = numpy.asarray(fun.dat.data_ro).ravel()
        return rat(float(d[0]) - shift) if d.max() == d.min() else OTHER

    def saw():
        r = {'uv': val(uv), 'elev': val(elev), 'bed': val(bath, 10.0),
             'sediment_2d': val(f.sediment_2d) if c['sed'] else '0',
             'q': val(f.q_2d) if c['nh'] else '0'}
        for x in labels:
            r[x] = val(f[x])
        return r

    def add(fun, x):
        fun.dat.data[:] += x

    called = []

    def forcings(t):
        called.append(t)

    def forc(upd):
        if upd is None:
            return False
        n = len(called)
        upd(0.0)
        return len(called) == n + 1

    comps = {}
    own = {}
    kinds = {}

    def change(comp):
        if comp == 'swe':
            add(uv, 1.0)
            add(elev, 16.0)
        elif comp == 'fs':
            add(elev, 1.0)
        elif comp == 'sediment':
            add(f.sediment_2d, 1.0)
        elif comp == 'exner':
            add(bath, 1.0)
        else:
            for x in comp.split(','):
                add(f[x], 1.0)

    def replace(comp, ts):
        orig = ts.initialize

        def initialize(sol, *a, **k):
            rec('init', comp=comp, own=sol is own[comp])
            orig(sol, *a, **k)

        def advance(t, update_forcings=None):
            rec('adv', comp=comp, m='advance', i=0, lagged=True, last=True, t=rat(float(t)), forc=forc(update_forcings), saw=saw())
            change(comp)

        def advance_picard(t, update_forcings=None, update_lagged=True, update_fields=True):
            rec('adv', comp=comp, m='picard', i=0, lagged=bool(update_lagged), last=bool(update_fields), t=rat(float(t)),
                forc=forc(update_forcings), saw=saw())
            change(comp)

        def solve_stage(i, t, update_forcings=None):
            rec('adv', comp=comp, m='stage', i=i, lagged=True, last=True, t=rat(float(t)), forc=forc(update_forcings), saw=saw())
            change(comp)

        rec('stepper', comp=comp, mro=[k.__name__ for k in type(ts).__mro__], want=ty[kinds[comp]], dt=rat(float(ts.dt)))
        ts.initialize = initialize
        ts.advance = advance
        ts.advance_picard = advance_picard
        ts.solve_stage = solve_stage

    names = {'swe2d': 'swe', 'fs2d': 'fs'}
    for k, ts in s.timestepper.timesteppers.items():
        comp = names.get(k, k)
        kinds[comp] = comp if comp in ('swe', 'fs', 'sediment', 'exner') else 'tracer'
        own[comp] = {'swe': f.solution_2d, 'fs': f.get('elev_2d'), 'sediment': f.get('sediment_2d'), 'exner': bath}.get(comp, f.get(comp))
        comps[comp] = ts
        replace(comp, ts)
    if getattr(s, 'tracer_limiter', None) is not None:
        def apply(fun):
            name = next((x for x in labels + ['sediment_2d'] if x in f and fun is f[x]), 'other')
            rec('limit', field=name, saw=saw())
            add(fun, 0.125)
        s.tracer_limiter.apply = apply
    if c['nh']:
        def solve(solve_w=True):
            rec('poisson', w=bool(solve_w), saw=saw())
            add(uv, 0.25)
            add(f.q_2d, 1.0)
        s.timestepper.poisson_solver.solve = solve
    kw = {x: Constant(0.0) for x in labels}
    if c['sed']:
        kw['sediment'] = Constant(0.0)
    if s.sediment_model is not None:
        s.sediment_model.update = lambda *a, **k: rec('sedmodel', saw=saw())
    s.assign_initial_conditions(**kw)
    # exact initial values
    for fun, x in [(uv, 0.0), (elev, num(c['elev0']))] + [(f[x], 0.0) for x in labels] + ([(f.sediment_2d, 0.0)] if c['sed'] else []):
        fun.dat.data[:] = x
    s.simulation_time = num(c['t0'])

    def after():
        old = [saw()['uv'], saw()['elev']]*2
        if c['nh'] and ty['swe'] == 'SSPIMEX':
            ts = comps['swe']
            old = []
            for part in (ts.erk, ts.dirk):
                a, b = part.solution_old.subfunctions
                old += [val(a), val(b)]
        rec('step', t=rat(float(s.simulation_time)), saw=saw(), old=old)

    s.add_callback(Probe(s, after), 'timestep')
    s.iterate(update_forcings=forcings)


drv.run(execute)
