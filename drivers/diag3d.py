"""
Assigns a sequence of states to the 3D model (moving its mesh) and reports the geometry and all diagnostic fields.
Configurations and events: see Diag3d.tla.
"""
import drv
import numpy
from fractions import Fraction
from thetis import *
from vf import rat

_setup = {}


def num(x):
    return float(Fraction(x))


def rr(a):
    """nested lists of numbers as rational strings"""
    if isinstance(a, numpy.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [rr(x) for x in a]
    return rat(float(a))


class Setup:
    """One solver; scenarios of a group only differ in the values of fields."""
    def __init__(self, c):
        nx, ny = c['nx'], c['ny']
        self.lx, self.ly = num(c['lx']), num(c['ly'])
        m2 = self.m2 = RectangleMesh(nx, ny, self.lx, self.ly, diagonal=c['diag'])
        self.nx, self.ny = nx, ny
        self.n = c['n']
        P1 = self.P1_2d = get_functionspace(m2, 'CG', 1)
        xy = m2.coordinates.dat.data_ro
        # vertex index: 1 + i + (nx+1) j
        self.vid = (1 + numpy.rint(xy[:, 0]/self.lx*nx) + (nx + 1)*numpy.rint(xy[:, 1]/self.ly*ny)).astype(int)
        bath = Function(P1)
        bath.dat.data[:] = numpy.array([num(v) for v in c['h']])[self.vid - 1]
        s = self.s = solver.FlowSolver(m2, bath, self.n, extrude_options={'z_stretch_fact': num(c['stretch'])})
        o = s.options
        o.no_exports = True
        o.output_directory = 'out'
        o.element_family = c['family']
        o.polynomial_degree = 1
        o.timestepper_options.use_automatic_timestep = False
        o.timestepper_options.explicit_momentum_options.solver_parameters = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_type': 'ksponly'}
        o.timestep = o.timestep_2d = num(c['dt'])
        o.simulation_export_time = o.simulation_end_time = o.timestep
        o.use_ale_moving_mesh = c['ale']
        o.use_limiter_for_tracers = o.use_limiter_for_velocity = False
        o.solve_salinity, o.solve_temperature = c['salt'], c['temp']
        if not c['salt']:
            o.constant_salinity = Constant(num(c['s0']))
        if not c['temp']:
            o.constant_temperature = Constant(num(c['t0']))
        o.use_baroclinic_formulation = True
        o.use_bottom_friction = False
        o.use_quadratic_density = c['quad']
        o.use_quadratic_pressure = c['quad']
        o.horizontal_velocity_scale = Constant(1.0)
        o.horizontal_viscosity_scale = Constant(1.0)
        o.equation_of_state_type = c['eos']
        if c['eos'] == 'linear':
            for k in ('rho_ref', 's_ref', 'th_ref', 'alpha', 'beta'):
                setattr(o.equation_of_state_options, k, num(c['lin'][k]))
        if c['smag']:
            o.use_smagorinsky_viscosity = True
            o.smagorinsky_coefficient = Constant(num(c['cs']))
        if c['turb']:
            o.use_turbulence = True
            o.turbulence_model_type = 'pacanowski'
            for k in ('max_viscosity', 'alpha', 'exponent'):
                setattr(o.turbulence_model_options, k, num(c['pp'][k]))
        if c['open']:
            for k in (1, 2, 3, 4):
                s.bnd_functions['momentum'][k] = {'symm': None}
                s.bnd_functions['shallow_water'][k] = {'un': Constant(0.0)}
        s.initialize()
        m3 = s.mesh
        self.DG = get_functionspace(m3, 'DG', 1, 'DG', 1)
        self.DGv = get_functionspace(m3, 'DG', 1, 'DG', 1, vector=True, dim=3)
        self.P2 = get_functionspace(m3, 'DG', 1, 'CG', 2)
        self.D2 = get_functionspace(m2, 'DG', 1)
        self.D2v = get_functionspace(m2, 'DG', 1, vector=True)
        self.P1 = get_functionspace(m3, 'CG', 1, 'CG', 1)
        self.P0 = get_functionspace(m3, 'DG', 0, 'DG', 0)
        # node tables: [cell][layer][...]
        self.t_dg = self._table(self.DG)
        self.t_p2 = self._table(self.P2)
        self.t_p1 = self._table(self.P1)
        self.t_p0 = self._table(self.P0)
        c2 = m2.coordinates.function_space().cell_node_list
        self.cv = self.vid[c2]                     # vertex ids of the cells, order of the 2D element
        self.hcc = Mesh3DConsistencyCalculator(s)
        # own integrators and copies
        F = self.F = {}
        F['f'] = Function(self.DG)
        F['up'], F['down'] = Function(self.P2), Function(self.P2)
        F['av'] = Function(self.DG)
        F['dgup'], F['dgdown'] = Function(self.DG), Function(self.DG)
        F['bu'], F['bd'] = Constant(0.0), Constant(0.0)
        kw = dict(bathymetry=s.fields.bathymetry_2d.view_3d, elevation=s.fields.elev_cg_2d.view_3d)
        self.integ = [VerticalIntegrator(F['f'], F['up'], bottom_to_top=True, bnd_value=F['bu'], **kw),
                      VerticalIntegrator(F['f'], F['down'], bottom_to_top=False, bnd_value=F['bd'], **kw),
                      VerticalIntegrator(F['f'], F['av'], bottom_to_top=True, average=True, **kw),
                      VerticalIntegrator(F['f'], F['dgup'], bottom_to_top=True, bnd_value=F['bu'], **kw),
                      VerticalIntegrator(F['f'], F['dgdown'], bottom_to_top=False, bnd_value=F['bd'], **kw)]
        F['e2'], F['e3'] = Function(self.D2), Function(self.DG)
        self.expand = ExpandFunctionTo3d(F['e2'], F['e3'])
        F['sub'] = Function(self.D2)
        self.sub = {(b, f): SubFunctionExtractor(F['f'], F['sub'], boundary=b, elem_facet=f)
                    for b in ('top', 'bottom') for f in ('top', 'bottom', 'average')}
        self.uint = Function(s.fields.uv_3d.function_space())
        self.uav = VerticalIntegrator(s.fields.uv_3d, self.uint, bottom_to_top=True, bnd_value=Constant((0.0, 0.0, 0.0)),
                                      average=True, **kw)
        self.uav2 = Function(s.fields.uv_2d.function_space())
        self.uex = SubFunctionExtractor(self.uint, self.uav2, boundary='top', elem_facet='top',
                                        elem_height=s.fields.v_elem_size_2d)

    def _table(self, V):
        m = V.cell_node_map()
        v, o = numpy.asarray(m.values), numpy.asarray(m.offset)
        return numpy.stack([v + k*o for k in range(self.n)], axis=1)

    def prism(self, data, cell):
        """Nodal values of a P1DG x P1DG function in a column: [layer][lower/upper][vertex]"""
        t = self.t_dg[cell].reshape(self.n, 3, 2)
        a = data[t]
        return numpy.moveaxis(a, 2, 1)

    def levels(self, data, cell):
        """Nodal values of a P1DG x P2 function: [level or midpoint][vertex]"""
        t = self.t_p2[cell].reshape(self.n, 3, 3)   # vertex, (bottom, top, mid)
        out = [data[t[0, :, 0]]]
        for k in range(self.n):
            out += [data[t[k, :, 2]], data[t[k, :, 1]]]
        return numpy.array(out)

    def elev(self, vals):
        f = Function(self.P1_2d)
        f.dat.data[:] = numpy.array([num(v) for v in vals])[self.vid - 1]
        return f


def execute(sc, rec):
    c = sc['cfg']
    key = sc['group']
    if key not in _setup:
        _setup[key] = Setup(c)
    S = _setup[key]
    s, F = S.s, S.F
    fl = s.fields
    n = S.n
    rg = numpy.random.default_rng(c['seed'])

    def q(a, scale, d=64):
        return numpy.rint(a*scale*d)/d

    for st in c['states']:
        # geometry first: nodal data depend on it
        s.assign_initial_conditions(elev=S.elev(st['eta']))
        X = SpatialCoordinate(s.mesh)
        xyz = numpy.stack([Function(S.DG).interpolate(X[i]).dat.data_ro for i in range(3)], axis=1)
        # the assignment below has to move the mesh before it projects the fields
        s.assign_initial_conditions(elev=S.elev(st['eta1']))
        size = xyz.shape[0]

        def field(spec, scale, pos=False):
            if spec[0] == 'rand':
                a = q(rg.uniform(-0.1 if pos else -1, 1, size), scale)
            else:
                k = [num(v) for v in spec[1]]
                a = k[0] + xyz @ numpy.array(k[1:])
            f = Function(S.DG)
            f.dat.data[:] = a
            return f

        u3 = Function(S.DGv)
        for i in range(2):
            u3.dat.data[:, i] = field(st['u3'][i], num(st['uscale'])).dat.data_ro
        k = [num(v) for v in st['u2']]
        x2 = SpatialCoordinate(S.m2)
        u2 = Function(S.D2v).interpolate(as_vector((k[0] + k[1]*x2[0] + k[2]*x2[1], k[3] + k[4]*x2[0] + k[5]*x2[1])))
        salt, temp = field(st['salt'], 35.0, True), field(st['temp'], 20.0)
        s.assign_initial_conditions(elev=S.elev(st['eta']), uv_2d=u2, uv_3d=u3, salt=salt if c['salt'] else None,
                                    temp=temp if c['temp'] else None)
        S.hcc.solve()
        # geometry: z of the vertices of the mesh
        cz = s.mesh.coordinates.dat.data_ro
        vi = (1 + numpy.rint(cz[:, 0]/S.lx*S.nx) + (S.nx + 1)*numpy.rint(cz[:, 1]/S.ly*S.ny)).astype(int)
        zz = [numpy.sort(cz[vi == v + 1, 2]) for v in range((S.nx + 1)*(S.ny + 1))]
        ecg = numpy.zeros((S.nx + 1)*(S.ny + 1))
        ecg[S.vid - 1] = fl.elev_cg_2d.dat.data_ro
        hs = numpy.zeros_like(ecg)
        hs[S.vid - 1] = fl.h_elem_size_2d.dat.data_ro
        # own operators
        f = F['f']
        f.dat.data[:] = q(rg.uniform(-1, 1, size), 4)
        F['bu'].assign(num(st['bu']))
        F['bd'].assign(num(st['bd']))
        for i in S.integ:
            i.solve()
        F['e2'].dat.data[:] = q(rg.uniform(-1, 1, F['e2'].dat.data_ro.size), 4)
        S.expand.solve()
        S.uav.solve()
        S.uex.solve()
        U = Function(S.DGv).project(fl.uv_3d).dat.data_ro if c['family'] != 'dg-dg' else fl.uv_3d.dat.data_ro
        UD = Function(S.DGv).project(fl.uv_dav_3d).dat.data_ro if c['family'] != 'dg-dg' else fl.uv_dav_3d.dat.data_ro
        UA = Function(S.D2v).project(S.uav2).dat.data_ro
        W = Function(S.DGv).project(fl.w_3d).dat.data_ro if c['family'] != 'dg-dg' else fl.w_3d.dat.data_ro
        sub = {}
        for kk, ex in S.sub.items():
            ex.solve()
            sub[kk] = numpy.array(F['sub'].dat.data_ro)
        if c['quad']:
            rho = Function(S.DG).interpolate(fl.density_3d).dat.data_ro
        else:
            rho = fl.density_3d.dat.data_ro
        head = Function(S.P2).interpolate(fl.baroc_head_3d).dat.data_ro
        pg = Function(get_functionspace(s.mesh, 'DG', 1, 'DG', 1, vector=True, dim=fl.int_pg_3d.ufl_shape[0]))
        pg.project(fl.int_pg_3d)
        PG = pg.dat.data_ro
        cells = sorted(set(int(v) for v in rg.integers(0, len(S.cv), 3)))
        out = []
        d2 = S.D2.cell_node_map().values
        for e in cells:
            def col(a):
                return rr(S.prism(a, e))
            r = dict(vs=[int(v) for v in S.cv[e]], ez=col(fl.v_elem_size_3d.dat.data_ro),
                     ez2=rr(fl.v_elem_size_2d.dat.data_ro[d2[e]]), hcc=col(fl.hcc_metric_3d.dat.data_ro),
                     f=col(f.dat.data_ro), up=rr(S.levels(F['up'].dat.data_ro, e)), down=rr(S.levels(F['down'].dat.data_ro, e)),
                     av=col(F['av'].dat.data_ro), dgup=col(F['dgup'].dat.data_ro), dgdown=col(F['dgdown'].dat.data_ro),
                     e2=rr(F['e2'].dat.data_ro[d2[e]]), e3=col(F['e3'].dat.data_ro),
                     sub=[dict(b=b, f=ff, v=rr(v[d2[e]])) for (b, ff), v in sub.items()],
                     u=[col(U[:, 0]), col(U[:, 1])], uav=[rr(UA[d2[e], 0]), rr(UA[d2[e], 1])],
                     ud=[col(UD[:, 0]), col(UD[:, 1])], w=col(W[:, 2]),
                     salt=col(fl.salt_3d.dat.data_ro if c['salt'] else numpy.full(size, num(c['s0']))),
                     temp=col(fl.temp_3d.dat.data_ro if c['temp'] else numpy.full(size, num(c['t0']))), rho=col(rho),
                     head=rr(S.levels(head, e)), pg=[col(PG[:, 0]), col(PG[:, 1])],
                     smag=rr(fl.smag_visc_3d.dat.data_ro[S.t_p1[e]].ravel()) if c['smag'] else [],
                     m2=[], n2=[], nu=[], mu=[])
            if c['turb']:
                t = S.t_p0[e].ravel()
                for k, name in (('m2', 'shear_freq_3d'), ('n2', 'buoy_freq_3d'), ('nu', 'eddy_visc_3d'), ('mu', 'eddy_diff_3d')):
                    r[k] = rr(fl[name].dat.data_ro[t])
            out.append(r)
        nrm = FacetNormal(s.mesh)
        flux = assemble((fl.w_3d[2]*nrm[2] + dot(fl.uv_3d + fl.uv_dav_3d, nrm))*ds_surf)
        rec('state', z=rr([list(v) for v in zz]), ecg=rr(ecg), hs=rr(hs), cells=out, flux=rat(float(flux)))
        # another stratification and shear without a new start of the model
        if c['turb']:
            for name in ('salt', 'temp'):
                if c[name]:
                    fl[name + '_3d'].dat.data[:] = q(rg.uniform(-0.1, 1, size), 30.0)
            fl.uv_3d.dat.data[:, :2] = q(rg.uniform(-1, 1, (size, 2)), num(st['uscale']))
            s.density_solver.solve()
            s.turbulence_model.preprocess()
            s.turbulence_model.postprocess()
            out = []
            for e in cells:
                def col(a):
                    return rr(S.prism(a, e))
                t = S.t_p0[e].ravel()
                r = dict(vs=[int(v) for v in S.cv[e]], u=[col(fl.uv_3d.dat.data_ro[:, i]) for i in (0, 1)],
                         salt=col(fl.salt_3d.dat.data_ro if c['salt'] else numpy.full(size, num(c['s0']))),
                         temp=col(fl.temp_3d.dat.data_ro if c['temp'] else numpy.full(size, num(c['t0']))),
                         rho=col(fl.density_3d.dat.data_ro))
                for k, name in (('m2', 'shear_freq_3d'), ('n2', 'buoy_freq_3d'), ('nu', 'eddy_visc_3d'), ('mu', 'eddy_diff_3d')):
                    r[k] = rr(fl[name].dat.data_ro[t])
                out.append(r)
            rec('mixing', cells=out)
        # mesh velocity for a change of the elevation
        if c['ale']:
            s.mesh_updater.compute_mesh_velocity_begin()
            fl.elev_2d.project(S.elev(st['eta1']))
            s.mesh_updater.compute_mesh_velocity_finalize(c=num(st['c']))
            wm = fl.w_mesh_3d.dat.data_ro
            zr = fl.z_coord_ref_3d.dat.data_ro
            px = [Function(fl.w_mesh_3d.function_space()).interpolate(X[i]).dat.data_ro for i in (0, 1)]
            vi = (1 + numpy.rint(px[0]/S.lx*S.nx) + (S.nx + 1)*numpy.rint(px[1]/S.ly*S.ny)).astype(int)
            ws = []
            for v in range((S.nx + 1)*(S.ny + 1)):
                ix = numpy.flatnonzero(vi == v + 1)
                ws.append(list(wm[ix[numpy.argsort(zr[ix])]]))
            rec('wmesh', w=rr(ws))


drv.run(execute)
