"""
Runs FlowSolver2d in a closed basin and records budgets, ranges and deviations.
Configurations and events: see Ledger.tla.
"""
import drv
import numpy
import random
from fractions import Fraction
from thetis import *
from vf import rat

TIGHT = {'snes_rtol': 1e-14, 'snes_atol': 1e-7, 'snes_stol': 1e-14, 'snes_max_it': 60, 'ksp_type': 'preonly', 'pc_type': 'lu',
         'mat_type': 'aij'}
_solver = {}


def num(x):
    return float(Fraction(x))


def make_mesh(c, name):
    nx, ny = 4, 3
    lx, ly = num(c['lx']), num(c['ly'])
    mesh = RectangleMesh(nx, ny, lx, ly, quadrilateral=c['quad'])
    # move the interior nodes
    rnd = random.Random(name)
    x = mesh.coordinates
    for i in range(x.dat.data.shape[0]):
        px, py = x.dat.data[i]
        if 0.01*lx < px < 0.99*lx and 0.01*ly < py < 0.99*ly:
            x.dat.data[i] += [rnd.uniform(-0.2, 0.2)*lx/nx, rnd.uniform(-0.2, 0.2)*ly/ny]
    return mesh


class Setup:
    def __init__(self, c, name):
        mesh = self.mesh = make_mesh(c, name)
        P1 = get_functionspace(mesh, 'CG', 1)
        self.bath = Function(P1).assign(10.0)
        s = self.s = solver2d.FlowSolver2d(mesh, self.bath)
        o = s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = c['family']
        o.polynomial_degree = c['deg']
        o.timestep = 1.0
        o.simulation_export_time = 1.0
        o.simulation_end_time = 1.0
        o.use_nonlinear_equations = c['nl']
        o.tracer_only = c['tronly']
        o.use_limiter_for_tracers = c['lim'] and c['deg'] == 1
        o.use_lax_friedrichs_tracer = c['lax']
        o.swe_timestepper_type = c['scheme']
        o.tracer_timestepper_type = c['tscheme']
        for opt, sch in ((o.swe_timestepper_options, c['scheme']), (o.tracer_timestepper_options, c['tscheme'])):
            if hasattr(opt, 'use_automatic_timestep'):
                opt.use_automatic_timestep = False
            if hasattr(opt, 'use_semi_implicit_linearization') and opt is o.swe_timestepper_options:
                opt.use_semi_implicit_linearization = c['semi']
            expl = sch in ('SSPRK33', 'ForwardEuler')
            lin = expl or opt is o.tracer_timestepper_options or c['semi']
            opt.solver_parameters = dict(TIGHT, snes_type='ksponly' if lin else 'newtonls')
        if c['scheme'] == 'PressureProjectionPicard':
            po = o.swe_timestepper_options
            po.picard_iterations = 2
            po.solver_parameters_pressure = dict(TIGHT, snes_type='ksponly' if c['wd'] == 'none' else 'newtonls')
            po.solver_parameters = dict(po.solver_parameters_pressure)
            po.solver_parameters_momentum = dict(TIGHT, snes_type='ksponly')
        if c['scheme'] in ('CrankNicolson', 'PressureProjectionPicard'):
            o.swe_timestepper_options.implicitness_theta = num(c['theta'])
        if c['tscheme'] == 'CrankNicolson':
            o.tracer_timestepper_options.implicitness_theta = num(c['ttheta'])
        if c['wd'] != 'none':
            o.use_wetting_and_drying = True
            o.wetting_and_drying_alpha = Constant(num(c['wd']))
        self.cor, self.drag, self.visc = Constant(0.0), Constant(0.0), Constant(0.0)
        o.coriolis_frequency = self.cor
        o.quadratic_drag_coefficient = self.drag
        o.norm_smoother = Constant(0.1)
        if c['visc']:
            o.horizontal_viscosity = self.visc
        self.wind = Function(get_functionspace(mesh, 'CG', 1, vector=True))
        o.wind_stress = self.wind
        self.pres = Function(P1)
        o.atmospheric_pressure = self.pres
        self.vol = Function(P1)
        o.volume_source_2d = self.vol
        self.src, self.diff = [], []
        for i, tr in enumerate(c['tracers']):
            f, d = Function(P1), Constant(0.0)
            self.src.append(f)
            self.diff.append(d)
            o.add_tracer_2d('c%d_2d' % i, 'Tracer %d' % i, 'Tracer%d' % i, source=f,
                            diffusivity=d if tr['diff'] else None, use_conservative_form=tr['form'] == 'cons')
        s.initialize()
        self.xy = SpatialCoordinate(mesh)


def rough(rnd, fs, amp):
    """A random function of the space (discontinuous if the space is)."""
    f = Function(fs)
    f.dat.data[:] = numpy.array([rnd.uniform(-amp, amp) for _ in range(f.dat.data.size)]).reshape(f.dat.data.shape)
    return f


def execute(sc, rec):
    c = sc['cfg']
    key = sc['group']
    if key not in _solver:
        _solver[key] = Setup(c, key)
    z = _solver[key]
    s, mesh = z.s, z.mesh
    o = s.options
    rnd = random.Random(c['seed'])
    x, y = z.xy
    lx, ly = num(c['lx']), num(c['ly'])
    P1 = get_functionspace(mesh, 'CG', 1)
    z.bath.interpolate(num(c['b'][0]) + num(c['b'][1])*x/lx + num(c['b'][2])*sin(3*y/ly)*cos(2*x/lx))
    z.cor.assign(num(c['f']))
    z.drag.assign(num(c['drag']))
    z.visc.assign(num(c['nu']))
    for d, tr in zip(z.diff, c['tracers']):
        d.assign(num(tr['nu']))
    a, b, r = (num(v) for v in c['vol'])
    vexpr = a + b*x
    pbal = Function(P1)
    if not c['rest']:
        z.pres.assign(rough(rnd, P1, 50.0))
        z.wind.assign(rough(rnd, z.wind.function_space(), 0.5))
    else:
        z.wind.assign(0.0)
        z.pres.assign(rough(rnd, P1, num(c['pamp'])))
        pbal.assign(z.pres)

    def forcings(t):
        z.vol.interpolate(vexpr*(1 + r*t))
        for f, tr in zip(z.src, c['tracers']):
            f.assign(num(tr['s0']) + num(tr['s1'])*t)

    t, dt = num(c['t0']), num(c['dt'])
    forcings(t)
    s.timestepper.set_dt(dt)
    uv, eta = s.fields.solution_2d.subfunctions
    labels = ['c%d_2d' % i for i in range(len(c['tracers']))]
    # initial state
    balanced = Constant(num(c['eta0'])) - z.pres/(physical_constants['rho0']*physical_constants['g_grav'])
    if c['rest']:
        elev0, uv0 = balanced, Constant((0.0, 0.0))
    else:
        elev0 = Constant(num(c['eta0'])) + Constant(num(c['etaamp']))*cos(pi*x/lx)*sin(2*y/ly + 1)
        # velocity without normal component on the boundary: curl of a stream function
        psi = Function(get_functionspace(mesh, 'CG', 2 if c['deg'] > 0 else 1))
        psi.assign(rough(rnd, psi.function_space(), num(c['psi'])))
        DirichletBC(psi.function_space(), 0.0, 'on_boundary').apply(psi)
        uv0 = as_vector((-psi.dx(1), psi.dx(0)))
    init = {}
    for i, tr in enumerate(c['tracers']):
        lab = labels[i]
        space = s.fields[lab].function_space()
        if tr['kind'] == 'uniform':
            init[lab] = Function(space).assign(num(tr['c']))
        else:
            init[lab] = Function(space).assign(num(tr['c']))
            init[lab] += rough(rnd, space, num(tr['amp']))
    s.assign_initial_conditions(elev=elev0, uv=uv0, **{k[:-3]: v for k, v in init.items()})
    if c['rest']:
        uv.assign(0.0)
        eta.interpolate(balanced)
    for lab in labels:
        if c['lim'] and c['deg'] == 1:
            s.tracer_limiter.apply(s.fields[lab])
    s.timestepper.initialize(s.fields.solution_2d)
    start = {lab: Function(s.fields[lab]) for lab in labels}
    depth = s.depth
    disp = depth.wd_bathymetry_displacement(eta) if c['wd'] != 'none' else 0
    # the mass term is integrated with the quadrature of the equation
    ref = Function(eta.function_space()).interpolate(balanced) if c['rest'] else None
    hfun = Function(get_functionspace(mesh, 'DG', 1))
    dxq = dx(degree=6)
    # the displacement is not polynomial: quadrature of the mass term of the equation
    dxd = dx(degree=2*eta.function_space().ufl_element().degree() + 1)
    normal = FacetNormal(mesh)
    # the depth in the source of a conservative tracer is integrated with the quadrature of the tracer equation
    dxt = dx(degree=2*c['deg'] + 1)
    water_vol = (lambda: assemble(eta*dxq) + assemble(disp*dxt)) if c['wd'] != 'none' else (lambda: assemble(eta*dxq))
    elev_vol = (lambda: assemble(eta*dxq) + assemble(disp*dxd)) if c['wd'] != 'none' else (lambda: assemble(eta*dxq))

    def measure():
        r = {'vol': rat(float(elev_vol())), 'wvol': rat(float(water_vol())), 'bvol': rat(float(assemble(z.bath*dxq))),
             'wall': [rat(float(assemble(s.fields[lab]*dot(uv, normal)*ds(degree=6)))) for lab in labels],
             'mass': [rat(float(assemble(s.fields[lab]*dxq))) for lab in labels],
             'umax': rat(float(numpy.abs(uv.dat.data_ro).max())),
             'eta': rat(float(numpy.abs(eta.dat.data_ro - ref.dat.data_ro).max())) if ref is not None else '0',
             'dev': [rat(float(numpy.abs(s.fields[lab].dat.data_ro - start[lab].dat.data_ro).max())) for lab in labels],
             'hmin': rat(float(hfun.interpolate(depth.get_total_depth(eta)).dat.data_ro.min()))}
        return r

    m = measure()
    area = lx*ly
    m['scale'] = [rat(max(area, float(assemble(abs(s.fields[lab])*dxq)))) for lab in labels]
    m['cscale'] = [rat(max(1.0, float(numpy.abs(s.fields[lab].dat.data_ro).max()))) for lab in labels]
    rec('init', **m)
    for k in range(c['steps']):
        s.timestepper.advance(t, forcings)
        t += dt
        rec('step', **measure())


drv.run(execute)
