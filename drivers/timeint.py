"""Executes time integrators of a scalar (or mixed) equation; traces for TimeInt.tla."""
import drv
from vf import dec
from fractions import Fraction
import numpy
from firedrake import *
import thetis  # noqa
from thetis import timeintegrator, rungekutta, implicitexplicit
from thetis.equation import Equation
import thetis.options as topt

PARAMS = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-12, 'snes_atol': 1e-12,
          'snes_max_it': 60, 'snes_stol': 1e-13}


def fl(x):
    return float(Fraction(x))


class Term0:
    def __init__(self, fs):
        self.function_space = fs
        self.test = TestFunction(fs)


class LinTerm(Term0):
    key = 'a'

    def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
        f = 0
        for q, (u, v) in enumerate(zip(comps(solution, self.function_space), split(self.test) if
                                       len(self.function_space) > 1 else (self.test,))):
            f += fields[self.key]*u*v*dx
        return f


class LinTermB(LinTerm):
    key = 'b'


class QuadTerm(Term0):
    def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
        f = 0
        vs = split(self.test) if len(self.function_space) > 1 else (self.test,)
        for u, w, v in zip(comps(solution, self.function_space), comps(solution_old, self.function_space), vs):
            f += fields['kap']*w*u*v*dx
        return f


class SourceTerm(Term0):
    def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
        vs = split(self.test) if len(self.function_space) > 1 else (self.test,)
        f = 0
        for q, v in enumerate(vs):
            f += fields['f%d' % q]*v*dx
        return f


def comps(u, fs):
    if len(fs) == 1:
        return (u,)
    if isinstance(u, (list, tuple)):
        return tuple(u)
    return split(u)


class Eq(Equation):
    def __init__(self, fs, quad):
        super().__init__(fs)
        self.add_term(LinTerm(fs), 'implicit')
        self.add_term(LinTermB(fs), 'explicit')
        if quad:
            self.add_term(QuadTerm(fs), 'nonlinear')
        self.add_term(SourceTerm(fs), 'source')


# the generic forms combined with other tableaux
class ERKLPUM2ShuOsher(rungekutta.ERKGenericShuOsher, rungekutta.ERKLPUM2Abstract):
    pass


class ERKLSPUM2ShuOsher(rungekutta.ERKGenericShuOsher, rungekutta.ERKLSPUM2Abstract):
    pass


class SSPRK33Butcher(rungekutta.ERKGeneric, rungekutta.SSPRK33Abstract):
    pass


class DIRK43UForm(rungekutta.DIRKGenericUForm, rungekutta.DIRK43Abstract):
    pass


def tableau(ts, rec):
    def m(x):
        return [[dec(v, 15) for v in r] for r in numpy.atleast_2d(x)]
    for part in (ts.dirk, ts.erk) if hasattr(ts, 'dirk') else (ts,):
        if not hasattr(part, 'butcher'):
            continue
        al = hasattr(part, 'alpha')
        rec('tableau', name=type(part).__name__, a=m(part.a), b=m(part.b)[0], c=m(part.c)[0],
            so=al, alpha=m(part.alpha) if al else [], beta=m(part.beta) if al else [])


def find(name):
    if name in globals():
        return globals()[name]
    for m in (timeintegrator, rungekutta, implicitexplicit):
        if hasattr(m, name):
            return getattr(m, name)
    raise AttributeError(name)


def execute(sc, rec):
    c = sc['cfg']
    name = c['scheme']
    n = c['n']
    mesh = IntervalMesh(n if not c['mixed'] else n//2, 1.0)
    x0 = mesh.coordinates.dat.data_ro.copy()
    V1 = FunctionSpace(mesh, 'DG', 0)
    V = V1*V1 if c['mixed'] else V1
    nc = n//2 if c['mixed'] else n
    # component j: cell j % nc of part j // nc

    def setv(fun, vals):
        if c['mixed']:
            for q in range(2):
                fun.dat.data[q][:] = vals[q*nc:(q+1)*nc]
        else:
            fun.dat.data[:] = vals

    def getv(fun):
        if c['mixed']:
            return numpy.concatenate([numpy.array(d) for d in fun.dat.data_ro])
        return fun.dat.data_ro.copy()

    fields = {}
    for k in ('a', 'b', 'kap'):
        # a mixed problem has the same coefficients in both parts
        fields[k] = Function(V1)
        fields[k].dat.data[:] = [fl(x) for x in c[k][:nc]]
    f0 = numpy.array([fl(x) for x in c['f0']])
    f1 = numpy.array([fl(x) for x in c['f1']])
    nf = 2 if c['mixed'] else 1
    if c['fconst']:
        ff = [Constant(0.0)]*nf
    else:
        ff = [Function(V1) for q in range(nf)]
    for q in range(nf):
        fields['f%d' % q] = ff[q]

    def set_f(t):
        if c['fconst']:
            ff[0].assign(f0[0] + f1[0]*t)
        else:
            for q in range(nf):
                ff[q].dat.data[:] = (f0 + f1*t)[q*nc:(q+1)*nc]

    t = fl(c['t0'])
    set_f(t)
    u = Function(V, name='u')
    setv(u, [fl(x) for x in c['u0']])
    cls = find(name)
    opt = {'SteadyState': topt.SteadyStateTimeStepperOptions2d}.get(name, topt.CrankNicolsonTracerTimeStepperOptions2d)()
    opt.solver_parameters = dict(PARAMS)
    if name != 'SteadyState':
        opt.use_semi_implicit_linearization = c['semi']
        opt.implicitness_theta = fl(c['theta'])
    if name.startswith('ERK') or name.startswith('IMEX') or name.startswith('SSPRK') or name == 'ForwardEuler':
        for k in list(opt.solver_parameters):
            if k.startswith('snes') and not name.startswith('IMEX'):
                opt.solver_parameters.pop(k)
    quad = any(fl(x) != 0 for x in c['kap'])
    eq = Eq(V, quad)
    ts = cls(eq, u, fields, fl(c['dt']), opt, {})
    ts.initialize(u)
    tableau(ts, rec)

    def forcing(tt):
        set_f(tt)
        rec('forcing', t=dec(tt, 15))
    upd = forcing if c['forc'] else None

    def op(name, call, **kw):
        rec('begin', op=name, t=dec(t, 15), **kw)
        call()
        rec('end', u=[dec(x) for x in getv(u)])

    dt = fl(c['dt'])
    for e in sc['prog']:
        k = e[0]
        if k == 'step':
            op('step', lambda: ts.advance(t, update_forcings=upd))
            t += dt
        elif k == 'picard':
            op('picard', lambda: ts.advance_picard(t, update_forcings=upd, update_lagged=e[1], update_fields=e[2]),
               lag=e[1], fld=e[2])
            if e[2]:
                t += dt
        elif k == 'set_dt':
            dt = fl(e[1])
            ts.set_dt(dt)
            rec('set_dt', dt=e[1])
        elif k == 'perturb':
            setv(u, [fl(x) for x in e[1]])
            rec('perturb', u=[dec(x) for x in getv(u)])
        elif k == 'mesh':
            mesh.coordinates.dat.data[:] = x0*fl(e[1])
            rec('mesh', J=e[1])
        elif k in ('predict', 'eval_rhs', 'correct'):
            op(k, getattr(ts, k))
        elif k in ('prep1', 'prep2'):
            op(k, lambda: ts.prepare_stage(int(k[-1]) - 1, t, upd))
        elif k in ('solve1', 'solve2'):
            op(k, lambda: ts.solve_stage(int(k[-1]) - 1))
            if k == 'solve2':
                t += dt
        else:
            raise ValueError(k)


drv.run(execute)
