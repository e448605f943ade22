"""
Executes time steps of the 3D model from horizontally uniform states on a doubly periodic mesh.
Configurations and events: see Column.tla.
"""
import drv
import numpy
from fractions import Fraction
from thetis import *
from vf import rat

_setup = {}
LU = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
NEWTON = dict(LU, snes_type='newtonls', snes_rtol=1e-13, snes_atol=1e-9, snes_stol=1e-14, snes_max_it=60,
              snes_divergence_tolerance=1e10)
LINEAR = dict(LU, snes_type='ksponly')


def num(x):
    return float(Fraction(x))


class Setup:
    """One solver; scenarios of a group only differ in the values of fields."""
    def __init__(self, c):
        mesh2d = PeriodicRectangleMesh(3, 3, 3e4, 3e4)
        self.bath = Function(get_functionspace(mesh2d, 'CG', 1)).assign(num(c['h']))
        s = self.s = solver.FlowSolver(mesh2d, self.bath, c['n'])
        o = s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = c['family']
        o.polynomial_degree = c['deg']
        o.timestepper_type = 'SSPRK22' if c['ti'] == 'ssprk22' else 'LeapFrog'
        o.timestepper_options.use_automatic_timestep = False
        o.timestep = 1.0
        o.timestep_2d = 1.0
        o.simulation_export_time = 1.0
        o.simulation_end_time = 1.0
        o.use_nonlinear_equations = True
        o.use_ale_moving_mesh = c['ale']
        o.use_implicit_vertical_diffusion = c['impl']
        o.use_limiter_for_tracers = False
        o.use_limiter_for_velocity = False
        o.solve_salinity = True
        o.solve_temperature = True
        o.horizontal_velocity_scale = Constant(1.0)
        p = o.timestepper_options
        p.swe_options.solver_parameters = dict(NEWTON)
        if c['impl']:
            p.implicit_momentum_options.solver_parameters = dict(LINEAR)
            p.implicit_tracer_options.solver_parameters = dict(LINEAR)
        m3 = s.mesh
        self.P1DG = get_functionspace(m3, 'DG', 1, 'DG', 1)
        self.P1DGv = get_functionspace(m3, 'DG', 1, 'DG', 1, vector=True, dim=3)
        self.P1 = get_functionspace(m3, 'CG', 1, 'CG', 1)
        self.zf = Function(self.P1DG)
        F = self.F = {}
        for k in ('nu', 'mu'):
            F[k] = Function(self.P1)
        o.vertical_viscosity = F['nu']
        o.vertical_diffusivity = F['mu']
        F['f'] = Constant(0.0)
        o.coriolis_frequency = F['f']
        F['tau'] = Constant((0.0, 0.0))
        o.wind_stress = F['tau']
        F['s2'] = Constant((0.0, 0.0))
        o.momentum_source_2d = F['s2']
        F['s3'] = Function(self.P1DGv)
        o.momentum_source_3d = F['s3']
        F['s30'] = [Function(self.P1DG), Constant((0.0, 0.0, 0.0))]
        F['src'] = [Function(self.P1DG) for _ in range(2)]
        o.salinity_source_3d, o.temperature_source_3d = F['src']
        F['q'] = [Function(self.P1DG) for _ in range(2)]
        for k, name in (('sipg', 'sipg_factor_vertical'), ('sipgt', 'sipg_factor_vertical_tracer')):
            F[k] = Constant(1.0)
            setattr(o, name, F[k])
        if c['uselin']:
            F['lin'] = Constant(0.0)
            o.linear_drag_coefficient = F['lin']
        if c['drag'] != 'none':
            o.use_bottom_friction = True
            F['dragc'] = Constant(num(c['dragc']))
            if c['drag'] == 'quadratic':
                o.quadratic_drag_coefficient = F['dragc']
            else:
                o.bottom_roughness = F['dragc']
        else:
            o.use_bottom_friction = False
        s.initialize()
        # numbering: nodes of a DG space of prisms, per layer
        self.nodes, self.off = self._nodes(self.P1DG)
        self.nl = c['n']

    @staticmethod
    def _nodes(V):
        m = V.cell_node_map()
        return numpy.asarray(m.values), numpy.asarray(m.offset)

    def profile(self, data, c):
        """Profiles from nodal data of P1DG: values from the bed upwards, and their horizontal variation."""
        z = self.zf.dat.data_ro
        out, var = [], 0.0
        for k in range(self.nl):
            ix = self.nodes + k*self.off
            zz, vv = z[ix], data[ix]
            mid = 0.5*(zz.min() + zz.max())
            lo, hi = vv[zz < mid], vv[zz > mid]
            var = max(var, numpy.ptp(lo), numpy.ptp(hi))
            if c['deg'] == 0:
                var = max(var, abs(lo.mean() - hi.mean()))
                out.append(0.5*(lo.mean() + hi.mean()))
            else:
                out += [lo.mean(), hi.mean()]
        return [float(x) for x in out], float(var)

    def fill(self, f, p, c, comp=None):
        """Sets the nodal values of a P1DG function from a profile."""
        z = self.zf.dat.data_ro
        d = f.dat.data
        for k in range(self.nl):
            ix = self.nodes + k*self.off
            zz = z[ix]
            mid = 0.5*(zz.min() + zz.max())
            lo, hi = (p[k], p[k]) if c['deg'] == 0 else (p[2*k], p[2*k + 1])
            vals = numpy.where(zz < mid, lo, hi)
            if comp is None:
                d[ix] = vals
            else:
                d[ix, comp] = vals

    def fill_levels(self, f, p):
        """Sets a continuous function from values at the level interfaces."""
        zf = Function(self.P1).interpolate(SpatialCoordinate(self.s.mesh)[2])
        z = zf.dat.data_ro
        lev = numpy.rint((z - z.min())/(z.max() - z.min())*self.nl).astype(int)
        f.dat.data[:] = numpy.array(p)[lev]


def execute(sc, rec):
    c = sc['cfg']
    key = sc['group']
    if key not in _setup:
        _setup[key] = Setup(c)
    z = _setup[key]
    s, F = z.s, z.F
    dt, t0 = num(c['dt']), num(c['t0'])
    # geometry first: nodal data depend on it
    s.dt = dt
    s.dt_2d = dt
    s.timestepper.set_dt(dt, dt)
    s.fields.split_residual_2d.assign(0.0)
    s.assign_initial_conditions(elev=Constant(num(c['e'])))
    z.zf.interpolate(SpatialCoordinate(s.mesh)[2])
    prof = {k: [num(x) for x in c[k]] for k in ('q', 'ux', 'uy', 'nu', 'mu')}
    z.fill_levels(F['nu'], prof['nu'])
    z.fill_levels(F['mu'], prof['mu'])
    F['f'].assign(num(c['f']))
    F['sipg'].assign(num(c['sipg']))
    F['sipgt'].assign(num(c['sipgt']))
    if 'lin' in F:
        F['lin'].assign(num(c['lin']))
    if 'dragc' in F:
        F['dragc'].assign(num(c['dragc']))
    tau, s2, s3 = ([num(x) for x in c[k]] for k in ('tau', 's2', 's3'))
    trs = [(num(x['s0']), num(x['s1'])) for x in c['tr']]
    qt = [[num(v) for v in x['q']] for x in c['tr']]
    for q, f in zip(qt, F['q']):
        z.fill(f, q, c)
    q3 = F['s30'][0]
    z.fill(q3, prof['q'], c)

    def forcings(t):
        F['s2'].assign((s2[0] + s2[1]*t, s2[2] + s2[3]*t))

    def forcings3d(t):
        F['tau'].assign((tau[0] + tau[1]*t, tau[2] + tau[3]*t))
        for i, (a, b) in enumerate(((s3[0], s3[1]), (s3[2], s3[3]))):
            F['s3'].dat.data[:, i] = (a + b*t)*q3.dat.data_ro
        for f, q, (a, b) in zip(F['src'], F['q'], trs):
            f.dat.data[:] = (a + b*t)*q.dat.data_ro

    forcings(t0)
    forcings3d(t0)
    u3 = Function(z.P1DGv)
    z.fill(u3, prof['ux'], c, 0)
    z.fill(u3, prof['uy'], c, 1)
    ini = [Function(z.P1DG) for _ in range(2)]
    for f, x in zip(ini, c['tr']):
        z.fill(f, [num(v) for v in x['c']], c)
    s.assign_initial_conditions(elev=Constant(num(c['e'])), uv_2d=Constant((num(c['u2'][0]), num(c['u2'][1]))), uv_3d=u3,
                                salt=ini[0], temp=ini[1])
    P2 = get_functionspace(s.mesh2d, 'DG', 1)
    P2v = get_functionspace(s.mesh2d, 'DG', 1, vector=True)
    t = t0
    for k in range(c['steps']):
        s.timestepper.advance(t, forcings, forcings3d)
        t += dt
        var = 0.0
        u2 = numpy.asarray(Function(P2v).project(s.fields.uv_2d).dat.data_ro)
        el = numpy.asarray(Function(P2).project(s.fields.elev_2d).dat.data_ro)
        u3d = numpy.asarray(Function(z.P1DGv).project(s.fields.uv_3d).dat.data_ro)
        dav = numpy.asarray(Function(z.P1DGv).project(s.fields.uv_dav_3d).dat.data_ro)
        var = max(var, float(numpy.ptp(u2, axis=0).max()), float(numpy.ptp(el)), float(numpy.ptp(dav, axis=0).max()))
        ux, v1 = z.profile(u3d[:, 0], c)
        uy, v2 = z.profile(u3d[:, 1], c)
        var = max(var, v1, v2)
        tr = []
        for name in ('salt_3d', 'temp_3d'):
            p, v = z.profile(numpy.asarray(Function(z.P1DG).project(s.fields[name]).dat.data_ro), c)
            tr.append([rat(x) for x in p])
            var = max(var, v)
        um, dm = u2.mean(axis=0), dav.mean(axis=0)
        rec('step', u2=[rat(float(x)) for x in um], dav=[rat(float(x)) for x in dm[:2]], elev=rat(float(el.mean())),
            ux=[rat(x) for x in ux], uy=[rat(x) for x in uy], tr=tr, var=rat(var))


drv.run(execute)
