"""
Steps of FlowSolver2d from discontinuous states.  Configurations and events: see Fluxes.tla.
"""
import drv
import numpy
import random
from fractions import Fraction
from thetis import *
from vf import rat

_solver = {}
LIN = {'snes_type': 'ksponly', 'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
NEWTON = {'snes_type': 'newtonls', 'snes_rtol': 1e-14, 'snes_atol': 1e-10, 'snes_stol': 1e-15, 'snes_max_it': 60,
          'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
SCHEME = {'FE': 'ForwardEuler', 'BE': 'BackwardEuler', 'CN': 'CrankNicolson', 'CNS': 'CrankNicolson'}


def num(x):
    return float(Fraction(x))


def make_mesh(g):
    nx, ny, lx, ly = g['nx'], g['ny'], float(g['lx']), float(g['ly'])
    mesh = RectangleMesh(nx, ny, lx, ly, quadrilateral=g['quad'])
    rnd = random.Random(g['name'])
    X = mesh.coordinates
    on = lambda v, a: abs(v - a) < 1e-9*(lx + ly)
    for i in range(X.dat.data.shape[0]):
        x, y = X.dat.data[i]
        dx_, dy_ = rnd.uniform(-0.25, 0.25)*lx/nx, rnd.uniform(-0.25, 0.25)*ly/ny
        x = 0.0 if on(x, 0) else lx if on(x, lx) else x + dx_
        y = 0.0 if on(y, 0) else ly if on(y, ly) else y + dy_
        X.dat.data[i] = x, y
    return mesh


class Setup:
    def __init__(self, g):
        mesh = self.mesh = make_mesh(g)
        self.x = SpatialCoordinate(mesh)
        P1 = get_functionspace(mesh, 'CG', 1)
        P1v = get_functionspace(mesh, 'CG', 1, vector=True)
        self.bath = Function(P1).assign(10.0)
        s = self.s = solver2d.FlowSolver2d(mesh, self.bath)
        o = s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = 'dg-dg'
        o.polynomial_degree = g.get('pu', g['p'])
        o.timestep = 1.0
        o.simulation_export_time = 1.0
        o.simulation_end_time = 1.0
        o.use_nonlinear_equations = g['nl']
        o.use_limiter_for_tracers = False
        self.lf, self.sipg = Constant(1.0), Constant(1.0)
        swe = g['mode'] == 'swe'
        if swe:
            o.swe_timestepper_type = SCHEME[g['scheme']]
            opt = o.swe_timestepper_options
            o.use_lax_friedrichs_velocity = g['lf']
            o.lax_friedrichs_velocity_scaling_factor = self.lf
            o.sipg_factor = self.sipg
        else:
            o.swe_timestepper_type = 'ForwardEuler'
            o.swe_timestepper_options.use_automatic_timestep = False
            o.tracer_timestepper_type = SCHEME[g['scheme']]
            opt = o.tracer_timestepper_options
            o.use_lax_friedrichs_tracer = g['lf']
            o.lax_friedrichs_tracer_scaling_factor = self.lf
            o.sipg_factor_tracer = self.sipg
        if hasattr(opt, 'use_automatic_timestep'):
            opt.use_automatic_timestep = False
        if swe and hasattr(opt, 'use_semi_implicit_linearization'):
            opt.use_semi_implicit_linearization = g['scheme'] == 'CNS'
        if g['scheme'] in ('CN', 'CNS'):
            opt.implicitness_theta = g['theta']
        opt.solver_parameters = dict(NEWTON if swe and g['scheme'] != 'FE' else LIN)
        if swe:
            self.nu, self.f, self.lin, self.quad, self.smooth = Function(P1), Function(P1), Constant(0.0), Constant(0.0), Constant(0.1)
            self.mom, self.wind, self.vol, self.pres = Function(P1v), Function(P1v), Function(P1), Function(P1)
            if g['visc'] != 'none':
                o.horizontal_viscosity = self.nu
                o.use_grad_div_viscosity_term = g['visc'] == 'graddiv'
                o.use_grad_depth_viscosity_term = False
            o.coriolis_frequency = self.f
            o.linear_drag_coefficient = self.lin
            if g['p'] == 0:
                o.quadratic_drag_coefficient = self.quad
                o.norm_smoother = self.smooth
                o.wind_stress = self.wind
            o.momentum_source_2d = self.mom
            o.volume_source_2d = self.vol
            o.atmospheric_pressure = self.pres
        else:
            o.tracer_only = True
            self.k, self.diff, self.src = Constant(1.0), Function(P1), Function(P1)
            o.tracer_advective_velocity_factor = self.k
            o.add_tracer_2d('c_2d', 'Tracer', 'Tracer', source=self.src, diffusivity=self.diff if g['diff'] else None,
                            use_conservative_form=g['cons'])
        self.bnd = {}
        for k, kind in enumerate(g['sides'], 1):
            d = {}
            for p in kind:
                d[p] = self.bnd[(k, p)] = Constant((0.0, 0.0)) if p == 'uv' else Constant(0.0)
            if d:
                s.bnd_functions.setdefault('shallow_water' if swe else 'c_2d', {})[k] = d
        s.initialize()
        # cells: vertices in cyclic order, nodes
        cn = mesh.coordinates.cell_node_map().values_with_halo
        xy = mesh.coordinates.dat.data_ro
        order = [0, 1, 3, 2] if g['quad'] else [0, 1, 2]
        self.cells = [[[rat(float(v)) for v in xy[c[i]]] for i in order] for c in cn]
        self.order = len(cn)

    def poly(self, p):
        x, y = self.x
        return num(p[0]) + num(p[1])*x + num(p[2])*y


def cell_polys(f):
    """Polynomial coefficients per cell of a scalar function of DG0 or DG1 (triangles)."""
    space = f.function_space()
    mesh = space.mesh()
    nodes = space.cell_node_map().values
    v = f.dat.data_ro
    if nodes.shape[1] == 1:
        return [[rat(float(v[n[0]])), '0', '0'] for n in nodes]
    pts = Function(VectorFunctionSpace(mesh, space.ufl_element())).interpolate(SpatialCoordinate(mesh)).dat.data_ro
    r = []
    for n in nodes:
        m = numpy.hstack((numpy.ones((3, 1)), pts[n]))
        r.append([rat(float(a)) for a in numpy.linalg.solve(m, v[n])])
    return r


def execute(sc, rec):
    c, g = sc['cfg'], sc['opts']
    if g['name'] not in _solver:
        _solver[g['name']] = Setup(g)
    z = _solver[g['name']]
    s = z.s
    rnd = random.Random(c['seed'])
    z.bath.interpolate(z.poly(c['b']))
    if c['lf'] != 'none':
        z.lf.assign(num(c['lf']))
    z.sipg.assign(num(c['sipg']))
    if c['mode'] == 'swe':
        z.nu.interpolate(z.poly(c['nu']))
        z.f.interpolate(z.poly(c['f']))
        z.lin.assign(num(c['lin']))
        z.quad.assign(num(c['quad']))
        z.smooth.assign(num(c['smooth']))
        z.mom.interpolate(as_vector([z.poly(p) for p in c['mom']]))
        z.wind.assign(Constant([num(v) for v in c['wind']]))
        z.vol.interpolate(z.poly(c['vol']))
        z.pres.interpolate(z.poly(c['pres']))
    else:
        z.k.assign(num(c['k']))
        z.diff.interpolate(z.poly(c['diff']))
        z.src.interpolate(z.poly(c['src']))
    for (k, p), f in z.bnd.items():
        sd = c['sides'][k-1]
        f.assign(Constant((num(sd['u']), num(sd['v']))) if p == 'uv' else num(sd[p]))
    s.timestepper.set_dt(num(c['dt']))
    s.assign_initial_conditions()
    uv, eta = s.fields.solution_2d.subfunctions

    def rough(f, amp):
        a = f.dat.data
        a[:] = numpy.array([rnd.uniform(-amp, amp) for _ in range(a.size)]).reshape(a.shape)
    rough(uv, num(c['amp'][0]))
    rough(eta, num(c['amp'][1]))
    if c['mode'] == 'tracer':
        rough(s.fields['c_2d'], num(c['amp'][2]))
    s.timestepper.initialize(s.fields.solution_2d)

    def state():
        u = Function(get_functionspace(z.mesh, 'DG', g.get('pu', g['p'])))
        v = Function(u)
        u.dat.data[:], v.dat.data[:] = uv.dat.data_ro[:, 0], uv.dat.data_ro[:, 1]
        e = cell_polys(eta)
        return {'eta': e, 'u': cell_polys(u), 'v': cell_polys(v),
                'c': cell_polys(s.fields['c_2d']) if c['mode'] == 'tracer' else e}
    rec('init', cells=z.cells, **state())
    t, dt = num(c['t']), num(c['dt'])
    for k in range(c['steps']):
        s.timestepper.advance(t)
        t += dt
        rec('step', **state())


drv.run(execute)
