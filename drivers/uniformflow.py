"""
Executes time steps of FlowSolver2d from horizontally uniform states on a doubly periodic mesh.
Configurations and events: see UniformFlow.tla.
"""
import drv
import numpy
from fractions import Fraction
from thetis import *
from vf import rat

_mesh = {}
_solver = {}
SCALARS = ('f', 'lin', 'dragc', 'vol')
TIGHT = {'snes_rtol': 1e-13, 'snes_atol': 1e-15, 'snes_stol': 1e-14, 'snes_max_it': 60, 'snes_divergence_tolerance': 1e10, 'ksp_type': 'preonly', 'pc_type': 'lu',
         'mat_type': 'aij'}


def num(x):
    return float(Fraction(x))


class Field:
    """A forcing field of the given kind with changeable values."""
    def __init__(self, kind, mesh, dim):
        self.kind = kind
        self.dim = dim
        if kind == 'func':
            space = get_functionspace(mesh, 'CG', 1, vector=dim > 1)
            self.field = Function(space)
        elif kind == 'const':
            self.field = Constant(0.0) if dim == 1 else Constant((0.0, 0.0))
        else:
            self.c = [Constant(0.0) for _ in range(dim)]
            self.field = 2*self.c[0] if dim == 1 else as_vector((2*self.c[0], self.c[1] + self.c[1]))

    def set(self, *v):
        v = [float(x) for x in v]
        if self.kind == 'func':
            self.field.assign(v[0] if self.dim == 1 else Constant(tuple(v)))
        elif self.kind == 'const':
            self.field.assign(v[0] if self.dim == 1 else tuple(v))
        else:
            for c, x in zip(self.c, v):
                c.assign(x/2)


class Setup:
    """One solver; scenarios of a group only differ in the values of fields."""
    def __init__(self, c):
        mesh = PeriodicRectangleMesh(3, 3, 3e3, 3e3)
        self.mesh = mesh
        self.bath = Function(get_functionspace(mesh, 'CG', 1)).assign(10.0)
        self.s = solver2d.FlowSolver2d(mesh, self.bath)
        o = self.s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = c['family']
        o.polynomial_degree = c['deg']
        o.timestep = 1.0
        o.simulation_export_time = 1.0
        o.simulation_end_time = 1.0
        o.use_nonlinear_equations = c['nl']
        o.tracer_only = c['tronly']
        o.use_limiter_for_tracers = c['deg'] > 0
        o.swe_timestepper_type = c['scheme']
        o.tracer_timestepper_type = c['tscheme']
        for opt in (o.swe_timestepper_options, o.tracer_timestepper_options):
            if hasattr(opt, 'use_automatic_timestep'):
                opt.use_automatic_timestep = False
            if hasattr(opt, 'use_semi_implicit_linearization'):
                opt.use_semi_implicit_linearization = c['semi']
            if c['scheme'] not in ('SSPRK33', 'ForwardEuler') and opt is o.swe_timestepper_options:
                opt.solver_parameters = dict(TIGHT, snes_type='ksponly' if c['semi'] and c['wd'] == 'none' else 'newtonls')
            else:
                opt.solver_parameters = {'snes_type': 'ksponly', 'ksp_type': 'preonly', 'pc_type': 'lu'}
        if c['picard']:
            po = o.swe_timestepper_options
            po.picard_iterations = c['picard']
            po.solver_parameters_pressure = dict(TIGHT, snes_type='ksponly' if c['wd'] == 'none' else 'newtonls')
            po.solver_parameters_momentum = dict(TIGHT, snes_type='ksponly')
        if hasattr(o.swe_timestepper_options, 'implicitness_theta'):
            o.swe_timestepper_options.implicitness_theta = num(c['theta'])
        if hasattr(o.tracer_timestepper_options, 'implicitness_theta'):
            o.tracer_timestepper_options.implicitness_theta = num(c['ttheta'])
        o.norm_smoother = Constant(0.0)
        self.norm = o.norm_smoother
        if c['wd'] != 'none':
            o.use_wetting_and_drying = True
            o.wetting_and_drying_alpha = Constant(num(c['wd']))
        k = c['kind']
        F = self.F = {}
        for name, opt in (('f', 'coriolis_frequency'), ('lin', 'linear_drag_coefficient'), ('vol', 'volume_source_2d')):
            F[name] = Field(k, mesh, 1)
            setattr(o, opt, F[name].field)
        if c['drag'] != 'none':
            F['dragc'] = Field(k, mesh, 1)
            F['dragc'].set(num(c['dragc']))
            setattr(o, {'quadratic': 'quadratic_drag_coefficient', 'manning': 'manning_drag_coefficient',
                        'nikuradse': 'nikuradse_bed_roughness'}[c['drag']], F['dragc'].field)
        for name, opt in (('tau', 'wind_stress'), ('mom', 'momentum_source_2d')):
            F[name] = Field(k, mesh, 2)
            setattr(o, opt, F[name].field)
        # gradient of the atmospheric pressure
        x = SpatialCoordinate(mesh)
        self.px, self.py = Constant(0.0), Constant(0.0)
        if k == 'func':
            self.pres = Function(get_functionspace(mesh, 'DG', 1))
        else:
            self.pres = self.px*x[0] + self.py*x[1]
        self.pexpr = self.px*x[0] + self.py*x[1]
        o.atmospheric_pressure = self.pres
        if c['visc']:
            o.horizontal_viscosity = Constant(5.0)
        self.src = []
        for i, tr in enumerate(c['tracers']):
            f = Field(k, mesh, 1)
            self.src.append(f)
            lab = 'c%d_2d' % i
            o.add_tracer_2d(lab, 'Tracer %d' % i, 'Tracer%d' % i, source=f.field,
                            diffusivity=Constant(3.0 + i) if i % 2 else None, use_conservative_form=tr['cons'])
        self.dens = None
        if c['turb']['use']:
            farm = TidalTurbineFarmOptions()
            self.dens = Field('func' if k == 'func' else 'const', mesh, 1)
            farm.turbine_density = self.dens.field
            farm.turbine_options.thrust_coefficient = num(c['turb']['ct'])
            farm.turbine_options.diameter = num(c['turb']['diam'])
            o.tidal_turbine_farms['everywhere'] = [farm]
        self.s.initialize()


def execute(sc, rec):
    c = sc['cfg']
    key = sc['group']
    if key not in _solver:
        _solver[key] = Setup(c)
    z = _solver[key]
    F = z.F
    p = {k: [num(x) for x in c[k]] for k in ('tau', 'mom', 'vol', 'press')}
    src = [(num(t['s0']), num(t['s1'])) for t in c['tracers']]

    def forcings(t):
        for k in ('tau', 'mom'):
            F[k].set(p[k][0] + p[k][1]*t, p[k][2] + p[k][3]*t)
        F['vol'].set(p['vol'][0] + p['vol'][1]*t)
        z.px.assign(p['press'][0] + p['press'][1]*t)
        z.py.assign(p['press'][2] + p['press'][3]*t)
        if c['kind'] == 'func':
            z.pres.interpolate(z.pexpr)
        for f, (a, b) in zip(z.src, src):
            f.set(a + b*t)

    z.bath.assign(num(c['b']))
    z.norm.assign(num(c['norm']))
    F['f'].set(num(c['f']))
    F['lin'].set(num(c['lin']))
    if 'dragc' in F:
        F['dragc'].set(num(c['dragc']))
    if z.dens is not None:
        z.dens.set(num(c['turb']['density']))
    t, dt = num(c['t0']), num(c['dt'])
    forcings(t)
    s = z.s
    s.timestepper.set_dt(dt)
    s.assign_initial_conditions(elev=Constant(num(c['eta'])), uv=Constant((num(c['u']), num(c['v']))),
                                **{'c%d' % i: Constant(num(tr['c'])) for i, tr in enumerate(c['tracers'])})
    uv, eta = s.fields.solution_2d.subfunctions
    P1 = get_functionspace(z.mesh, 'DG', 1)
    P1v = get_functionspace(z.mesh, 'DG', 1, vector=True)

    def vals(f, vector=False):
        g = Function(P1v if vector else P1).project(f) if c['family'] != 'dg-dg' and vector else f
        d = numpy.asarray(g.dat.data_ro)
        return d.mean(axis=0), float((d.max(axis=0) - d.min(axis=0)).max())

    for k in range(c['steps']):
        s.timestepper.advance(t, forcings)
        t += dt
        (u, v), var = vals(uv, True)
        e, var2 = vals(eta)
        tr = [vals(s.fields['c%d_2d' % i]) for i in range(len(src))]
        rec('step', u=rat(float(u)), v=rat(float(v)), eta=rat(float(e)), c=[rat(float(x[0])) for x in tr],
            var=rat(max([var, var2] + [x[1] for x in tr])))


drv.run(execute)
