"""
Executes the sediment model, the sediment and Exner equations of FlowSolver2d.
Configurations and events: see Sediment.tla.
"""
import drv
import numpy
import random
from fractions import Fraction
from thetis import *
from vf import rat

LU = {'snes_type': 'newtonls', 'snes_rtol': 1e-13, 'snes_atol': 1e-16, 'snes_stol': 1e-14, 'snes_max_it': 50, 'ksp_type': 'preonly',
      'pc_type': 'lu', 'mat_type': 'aij'}


def num(x):
    return float(Fraction(x))


def C(x):
    return Constant(num(x))


def parameters(o, c):
    p = c['p']
    so = o.sediment_model_options
    so.average_sediment_size = C(p['size'])
    so.bed_reference_height = C(p['zref'])
    so.sediment_density = C(p['rhos'])
    so.slope_effect_parameter = C(p['beta'])
    so.slope_effect_angle_parameter = C(p['surb'])
    so.secondary_current_parameter = C(p['asec'])
    so.morphological_acceleration_factor = C(p['morfac'])
    so.solve_suspended_sediment = c['susp']
    so.use_bedload = c['bed']
    so.use_angle_correction = c['angle']
    so.use_slope_mag_correction = c['mag']
    so.use_secondary_current = c['secc']
    so.use_advective_velocity_correction = c['adv']
    so.use_sediment_conservative_form = c['cons']
    if c['viscopt'] == 'own':
        so.morphological_viscosity = C(p['visc'])
        o.horizontal_viscosity = Constant(5e-6)
    else:
        o.horizontal_viscosity = C(p['visc'])
    return so


def planar(mesh, a, bx, by):
    x, y = SpatialCoordinate(mesh)
    return Constant(a) + Constant(bx)*x + Constant(by)*y


class Meter:
    """mean and relative spread of expressions"""
    def __init__(self, mesh):
        self.space = get_functionspace(mesh, 'DG', 1)
        self.var = 0.

    def __call__(self, expr, scale=0.):
        f = Function(self.space).interpolate(expr)
        d = f.dat.data_ro
        m = float(d.mean())
        big = max(abs(d).max(), scale)
        if big > 0:
            self.var = max(self.var, float(d.max() - d.min())/big)
        return m


def model(sc, rec):
    c = sc['cfg']
    mesh = RectangleMesh(2, 2, 10., 10.)
    P1 = get_functionspace(mesh, 'CG', 1)
    bath = Function(P1)
    s = solver2d.FlowSolver2d(mesh, bath)
    o = s.options
    so = parameters(o, c)
    uv = Function(get_functionspace(mesh, 'DG', 1, vector=True))
    elev = Function(get_functionspace(mesh, 'DG', 1))
    depth = DepthExpression(bath, use_nonlinear_equations=True, use_wetting_and_drying=False, wetting_and_drying_alpha=Constant(0.5))

    def put(x):
        bath.interpolate(planar(mesh, num(c['b0']), num(x['bx']), num(x['by'])))
        elev.interpolate(planar(mesh, num(x['h']) - num(c['b0']), -num(x['bx']), -num(x['by'])))
        uv.interpolate(Constant((num(x['u']), num(x['v']))))
    put(c['states'][0])
    try:
        m = so.sediment_model_class(o, mesh, uv, elev, depth)
    except ValueError:
        rec('refused')
        return
    for x in c['states']:
        put(x)
        m.update()
        z = Meter(mesh)
        ev = dict(ws=z(m.settling_velocity), tau=z(m.bed_stress, 1e-9))
        if c['susp']:
            ev.update(dep=z(m.get_deposition_coefficient()), ero=z(m.get_erosion_term(), 1e-9), eq=z(m.get_equilibrium_tracer(), 1e-9),
                      fac=z(Constant(1.0)*m.get_advective_velocity_correction_factor(), 1e-2))
        if c['bed']:
            qx, qy = m.get_bedload_term(bath)
            qs = abs(z(sqrt(qx*qx + qy*qy), 1e-12))
            ev.update(qx=z(qx, qs + 1e-12), qy=z(qy, qs + 1e-12))
        rec('model', var=rat(z.var), **{k: rat(v) for k, v in ev.items()})


def factor(sc, rec):
    """velocity correction factor for given bed stress and settling velocity"""
    from thetis.sediment_model import CorrectiveVelocityFactor
    P1 = get_functionspace(UnitSquareMesh(1, 1), 'CG', 1)
    for x in sc['cfg']['factors']:
        f = {k: Function(P1).assign(num(v)) for k, v in x.items()}
        m = CorrectiveVelocityFactor(f['h'], f['ksp'], f['ws'], f['us'], f['aref'])
        m.update()
        rec('factor', fac=rat(float(m.velocity_correction_factor.dat.data_ro[0])))


def boundary(kind, mesh):
    P1 = get_functionspace(mesh, 'CG', 1)
    P1v = get_functionspace(mesh, 'CG', 1, vector=True)
    return {'none': None, 'drag': {'drag': Constant(0.01)}, 'un0': {'un': Constant(0.0)}, 'uv0': {'uv': as_vector((0.0, 0.0))},
            'flux0': {'flux': Constant(0.0)}, 'elev': {'elev': Constant(0.2)}, 'elevf': {'elev': Function(P1).assign(0.2)},
            'un': {'un': Constant(0.3)}, 'unf': {'un': Function(P1).assign(0.3)}, 'uv': {'uv': as_vector((0.3, 0.0))},
            'uvc': {'uv': Constant((0.0, 0.3))}, 'uvf': {'uv': Function(P1v).assign(Constant((0.1, 0.2)))}, 'flux': {'flux': Constant(-3.0)},
            'fluxf': {'flux': Function(P1).assign(3.0)}, 'elevun': {'elev': Constant(0.1), 'un': Constant(-0.2)},
            'elevdrag': {'elev': Constant(0.1), 'drag': Constant(0.0)}, 'undrag': {'un': Constant(0.3), 'drag': Constant(0.01)}}[kind]


def run_solver(c, mesh, bath):
    s = solver2d.FlowSolver2d(mesh, bath)
    o = s.options
    o.no_exports = True
    o.output_directory = 'out'
    o.timestep = num(c['dt'])
    o.simulation_export_time = num(c['dt'])
    o.simulation_end_time = 100*num(c['dt'])
    o.tracer_only = c['tronly']
    o.use_limiter_for_tracers = c['limiter']
    o.tracer_picard_iterations = c['picard']
    so = parameters(o, c)
    so.solve_exner = c['exner']
    if c['porkind'] == 'func':
        so.porosity = Function(get_functionspace(mesh, 'CG', 1)).assign(num(c['p']['por']))
    elif c['porkind'] == 'const':
        so.porosity = C(c['p']['por'])
    if c['diff'] and c['susp']:
        so.horizontal_diffusivity = Constant(0.3)
    if c['slide']:
        so.use_sediment_slide = True
        so.sed_slide_length_scale = Constant(1.0)
        so.max_angle = C(c['p']['angle'])
    o.swe_timestepper_type = c['swe']
    so.sediment_timestepper_type = c['sscheme']
    so.exner_timestepper_type = c['escheme']
    for opt, scheme in ((o.swe_timestepper_options, c['swe']), (so.sediment_timestepper_options, c['sscheme']),
                        (so.exner_timestepper_options, c['escheme'])):
        if hasattr(opt, 'use_automatic_timestep'):
            opt.use_automatic_timestep = False
        opt.solver_parameters = dict(LU)
        if scheme in ('ForwardEuler', 'SSPRK33'):
            opt.solver_parameters['snes_type'] = 'ksponly'
        if hasattr(opt, 'use_semi_implicit_linearization'):
            opt.use_semi_implicit_linearization = False
        if hasattr(opt, 'implicitness_theta'):
            opt.implicitness_theta = num(c['theta'])
    if c['niku']:
        o.nikuradse_bed_roughness = Constant(3*num(c['p']['size']))
    return s


def uniform(sc, rec):
    c = sc['cfg']
    st = c['start']
    if c['eqbnd']:
        mesh = RectangleMesh(3, 2, 30., 20.)
    else:
        mesh = PeriodicRectangleMesh(3, 3, 30., 30.)
    bath = Function(get_functionspace(mesh, 'CG', 1)).assign(num(st['b']))
    s = run_solver(c, mesh, bath)
    if c['eqbnd']:
        for i in range(1, 5):
            s.bnd_functions['sediment'][i] = {'equilibrium': None}
    sed = {} if st['s'] == 'equilibrium' else {'sediment': C(st['s'])}
    if not c['susp']:
        sed = {}
    s.assign_initial_conditions(elev=C(st['eta']), uv=Constant((num(st['u']), num(st['v']))), **sed)
    uv, eta = s.fields.solution_2d.subfunctions

    def report(ev):
        z = Meter(mesh)
        sp = abs(z(sqrt(dot(uv, uv)), 1e-3)) + 1e-3
        d = dict(u=z(uv[0], sp), v=z(uv[1], sp), eta=z(eta, 1.0), b=z(s.fields.bathymetry_2d))
        d['s'] = z(s.fields.sediment_2d, 1e-6) if c['susp'] else 0.
        rec(ev, var=rat(z.var), **{k: rat(v) for k, v in d.items()})
    report('init')
    for k in range(c['steps']):
        s.timestepper.advance(k*num(c['dt']), None)
        report('step')


def bed(sc, rec):
    c = sc['cfg']
    x0 = c['states'][0]
    mesh = RectangleMesh(4, 3, num(c['lx']), num(c['ly']))
    P1 = get_functionspace(mesh, 'CG', 1)
    bath = Function(P1).interpolate(planar(mesh, num(c['b0']), num(x0['bx']), num(x0['by'])))
    s = run_solver(c, mesh, bath)
    for i, kind in enumerate(c['sides']):
        b = boundary(kind, mesh)
        if b is not None:
            s.bnd_functions['shallow_water'][i + 1] = b
    s.assign_initial_conditions(elev=planar(mesh, num(x0['h']) - num(c['b0']), -num(x0['bx']), -num(x0['by'])),
                                uv=Constant((num(x0['u']), num(x0['v']))))
    b = s.fields.bathymetry_2d
    old = Function(P1).assign(b)
    x, y = SpatialCoordinate(mesh)
    s.timestepper.advance(0.0, None)
    rec('moments', m0=rat(float(assemble((b - old)*dx))), mx=rat(float(assemble(x*(b - old)*dx))), my=rat(float(assemble(y*(b - old)*dx))))


def budget(sc, rec):
    c = sc['cfg']
    mesh = RectangleMesh(4, 3, num(c['lx']), num(c['ly']))
    rnd = random.Random(c['seed'])
    P1 = get_functionspace(mesh, 'CG', 1)
    P1DG = get_functionspace(mesh, 'DG', 1)
    bath = Function(P1)
    bath.dat.data[:] = [num(c['start']['b'])*(1 + 0.1*rnd.uniform(-1, 1)) for _ in range(bath.dat.data.size)]
    s = run_solver(c, mesh, bath)
    lim = num(c['p']['por'])
    if c['porkind'] == 'func':
        s.options.sediment_model_options.porosity.dat.data[:] = [lim*rnd.uniform(0.5, 1.5) for _ in range(bath.dat.data.size)]
    x, y = SpatialCoordinate(mesh)
    lx, ly = num(c['lx']), num(c['ly'])
    # no normal flow at the walls
    psi = sin(pi*x/lx)*sin(pi*y/ly)
    sed = {'sediment': num(c['start']['s'])*(1 + 0.5*cos(pi*x/lx))} if c['susp'] else {}
    s.assign_initial_conditions(elev=0.02*cos(pi*x/lx), uv=C(c['start']['u'])*as_vector((psi.dx(1)*ly/pi, -psi.dx(0)*lx/pi)), **sed)
    por = s.options.sediment_model_options.porosity
    weight = (1.0 - por)/(1.0 - lim)
    uv, eta = s.fields.solution_2d.subfunctions
    b = s.fields.bathymetry_2d
    for k in range(c['steps'] + 1):
        if k:
            old = Function(P1DG).interpolate(b + eta)
            s0 = s.fields.sediment_2d.copy(deepcopy=True) if c['susp'] else None
            s.timestepper.advance((k - 1)*num(c['dt']), None)
            # largest change of the total depth
            db = float(abs(Function(P1DG).interpolate(b + eta).dat.data_ro - old.dat.data_ro).max())
        else:
            db = 0.
        ex = 0.
        if c['susp']:
            m = s.sediment_model
            h = b + eta
            sm = abs(s.fields.sediment_2d) + (abs(s0) if k else 0.)
            ex = num(c['dt'])*float(assemble((m.get_erosion_term() + m.get_deposition_coefficient()*sm/h)*dx))
        susp = float(assemble(s.fields.sediment_2d*dx)) if c['susp'] else 0.
        hmin = float((Function(P1DG).interpolate(b + eta)).dat.data_ro.min())
        rec('budget', susp=rat(susp), bed=rat(float(assemble(weight*b*dx(degree=3)))), exch=rat(ex), db=rat(db), hmin=rat(hmin))


def execute(sc, rec):
    {'model': model, 'factor': factor, 'run': uniform, 'bed': bed, 'slide': bed, 'budget': budget}[sc['cfg']['mode']](sc, rec)


drv.run(execute)
