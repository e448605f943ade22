"""
One forward Euler step of FlowSolver2d from affine fields.  Configurations and events: see Affine.tla.
"""
import drv
import math
import numpy
import random
from fractions import Fraction
from thetis import *
from vf import rat

LU = {'snes_type': 'ksponly', 'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
_solver = {}


def num(x):
    return float(Fraction(x))


def make_mesh(g, c, name):
    n = 3
    mesh = UnitSquareMesh(n, n, quadrilateral=g['quad'])
    rnd = random.Random(name)
    X = mesh.coordinates
    if not g['quad']:
        # move the interior nodes
        for i in range(X.dat.data.shape[0]):
            if 0.01 < X.dat.data[i][0] < 0.99 and 0.01 < X.dat.data[i][1] < 0.99:
                X.dat.data[i] += [rnd.uniform(-0.25, 0.25)/n, rnd.uniform(-0.25, 0.25)/n]
    o, a, b = [numpy.array([num(v) for v in c['geom'][i:i+2]]) for i in (0, 2, 4)]
    ref = X.dat.data.copy()
    X.dat.data[:] = o + numpy.outer(ref[:, 0], a) + numpy.outer(ref[:, 1], b)
    return mesh


def normals(c):
    """Unit normal and length of the four sides."""
    a, b = [numpy.array([num(v) for v in c['geom'][i:i+2]]) for i in (2, 4)]
    r = {}
    for k, d in ((1, (-b[1], b[0])), (2, (b[1], -b[0])), (3, (a[1], -a[0])), (4, (-a[1], a[0]))):
        n = math.hypot(*d)
        r[k] = (d[0]/n, d[1]/n, n)
    return r


class Setup:
    def __init__(self, g, c):
        mesh = self.mesh = make_mesh(g, c, g['name'])
        self.n = normals(c)
        self.x = SpatialCoordinate(mesh)
        P1 = get_functionspace(mesh, 'CG', 1)
        P2 = get_functionspace(mesh, 'CG', 2)
        P1v = get_functionspace(mesh, 'CG', 1, vector=True)
        self.bath = Function(P1).assign(10.0)
        s = self.s = solver2d.FlowSolver2d(mesh, self.bath)
        o = s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = g['family']
        o.polynomial_degree = 1
        o.timestep = 1.0
        o.simulation_export_time = 1.0
        o.simulation_end_time = 1.0
        o.use_nonlinear_equations = g['nl']
        o.use_lax_friedrichs_velocity = g['lax']
        o.use_lax_friedrichs_tracer = g['lax']
        o.use_limiter_for_tracers = False
        o.swe_timestepper_type = 'ForwardEuler'
        o.tracer_timestepper_type = 'ForwardEuler'
        for opt in (o.swe_timestepper_options, o.tracer_timestepper_options):
            opt.use_automatic_timestep = False
            opt.solver_parameters = dict(LU)
        self.bnd = {}
        self.eta, self.u = Function(P1), Function(P1v)
        if g['mode'] == 'swe':
            self.nu, self.f, self.lin = Function(P1), Function(P1), Constant(0.0)
            self.mom, self.wind, self.vol, self.pres = Function(P1v), Function(P1v), Function(P1), Function(P2)
            if g['visc'] != 'none':
                o.horizontal_viscosity = self.nu
                o.use_grad_div_viscosity_term = g['visc'] != 'full'
                o.use_grad_depth_viscosity_term = g['visc'] == 'graddepth'
            o.coriolis_frequency = self.f
            o.linear_drag_coefficient = self.lin
            o.momentum_source_2d = self.mom
            o.wind_stress = self.wind
            o.volume_source_2d = self.vol
            o.atmospheric_pressure = self.pres
        else:
            o.tracer_only = True
            o.tracer_element_family = g['trfam']
            self.k, self.diff, self.src = Function(P1), Function(P1), Function(P1)
            o.tracer_advective_velocity_factor = self.k
            self.val = Function(P1)
            o.add_tracer_2d('c_2d', 'Tracer', 'Tracer', source=self.src, diffusivity=self.diff if g['diff'] else None,
                            use_conservative_form=g['cons'])
        for k, kind in enumerate(g['sides'], 1):
            d = {}
            for p in kind.split('+'):
                if p in ('none', 'closed'):
                    continue
                f = {'elev': self.eta, 'uv': self.u}.get(p)
                if f is None and p == 'value':
                    f = self.val
                if f is None:
                    f = self.bnd[(k, p)] = Function(P2)
                d[p] = f
            if d:
                s.bnd_functions.setdefault('shallow_water' if g['mode'] == 'swe' else 'c_2d', {})[k] = d
        s.initialize()

    def poly(self, p):
        x, y = self.x
        return num(p[0]) + num(p[1])*x + num(p[2])*y


def affine_fit(f, vector=False):
    """Coefficients of the best affine approximation and the maximal deviation, per component."""
    mesh = f.function_space().mesh()
    space = get_functionspace(mesh, 'DG', 2, vector=vector)
    vals = Function(space).interpolate(f).dat.data_ro
    pts = Function(get_functionspace(mesh, 'DG', 2, vector=True)).interpolate(SpatialCoordinate(mesh)).dat.data_ro
    m = numpy.hstack((numpy.ones((len(pts), 1)), pts))
    vals = vals if vector else vals[:, None]
    coef, _, _, _ = numpy.linalg.lstsq(m, vals, rcond=None)
    res = numpy.abs(vals - m @ coef).max(axis=0)
    return [[rat(float(v)) for v in coef[:, i]] for i in range(vals.shape[1])], [rat(float(v)) for v in res]


def execute(sc, rec):
    c, g = sc['cfg'], sc['opts']
    if g['name'] not in _solver:
        _solver[g['name']] = Setup(g, c)
    z = _solver[g['name']]
    s = z.s
    z.bath.interpolate(z.poly(c['b']))
    z.eta.interpolate(z.poly(c['eta']))
    z.u.interpolate(as_vector((z.poly(c['u']), z.poly(c['v']))))
    x, y = z.x
    depth = z.poly(c['b']) + (z.poly(c['eta']) if c['nl'] else 0)
    if c['mode'] == 'swe':
        z.nu.interpolate(z.poly(c['nu']))
        z.f.interpolate(z.poly(c['f']))
        z.lin.assign(num(c['lin']))
        z.mom.interpolate(as_vector([z.poly(p) for p in c['mom']]))
        z.wind.assign(Constant([num(v) for v in c['wind']]))
        z.vol.interpolate(z.poly(c['vol']))
        p = [num(v) for v in c['pres']]
        z.pres.interpolate(p[0] + p[1]*x + p[2]*y + p[3]*x*x + p[4]*x*y + p[5]*y*y)
    else:
        z.k.interpolate(z.poly(c['k']))
        z.diff.interpolate(z.poly(c['diff']))
        z.src.interpolate(z.poly(c['src']))
        z.val.interpolate(z.poly(c['c']))
    for (k, p), f in z.bnd.items():
        nx, ny, ln = z.n[k]
        un = z.poly(c['u'])*nx + z.poly(c['v'])*ny
        if p == 'un':
            f.interpolate(un)
        elif p == 'flux':
            f.interpolate(un*depth*ln)
        elif p == 'diff_flux':
            f.interpolate(z.poly(c['diff'])*(num(c['c'][1])*nx + num(c['c'][2])*ny))
    init = {'elev': z.eta, 'uv': z.u}
    if c['mode'] == 'tracer':
        init['c'] = z.val
    s.timestepper.set_dt(num(c['dt']))
    s.assign_initial_conditions(**init)
    if g['family'] != 'dg-dg' and c['mode'] == 'swe':
        # the initial projection is iterative
        uv, eta = s.fields.solution_2d.subfunctions
        uv.project(z.u, solver_parameters={'ksp_type': 'preonly', 'pc_type': 'lu'})
        eta.interpolate(z.eta)
    elif g['family'] != 'dg-dg':
        s.fields.solution_2d.subfunctions[0].project(z.u, solver_parameters={'ksp_type': 'preonly', 'pc_type': 'lu'})
    s.timestepper.initialize(s.fields.solution_2d)
    s.timestepper.advance(num(c['t']))
    if c['mode'] == 'swe':
        uv, eta = s.fields.solution_2d.subfunctions
        cu, ru = affine_fit(uv, True)
        ce, re = affine_fit(eta)
        rec('step', f=cu + ce, res=ru + re)
    else:
        cc, rc = affine_fit(s.fields['c_2d'])
        rec('step', f=cc, res=rc)


drv.run(execute)
