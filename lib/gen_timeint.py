"""Scenarios for TimeInt.tla."""
import random
from fractions import Fraction as F

ERK = ['SSPRK33', 'ERKLSPUM2', 'ERKLPUM2', 'ERKMidpoint', 'ERKEuler', 'ERKLPUM2ShuOsher', 'ERKLSPUM2ShuOsher',
       'SSPRK33Butcher']
DIRK = ['BackwardEuler', 'ImplicitMidpoint', 'CrankNicolsonRK', 'DIRK22', 'DIRK23', 'DIRK33', 'DIRK43', 'DIRKLSPUM2',
        'DIRKLPUM2', 'ESDIRKMidpoint', 'ESDIRKTrapezoid']
UFORM = ['BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm', 'DIRK43UForm']
IMEX = ['IMEXLPUM2', 'IMEXLSPUM2', 'IMEXMidpoint', 'IMEXEuler']
RK_ALL = ERK + DIRK + UFORM + IMEX
OTHER = ['ForwardEuler', 'CrankNicolson', 'SteadyState', 'LeapFrogAM3', 'SSPRK22ALE']


def q(rng, lo, hi, den=16):
    return F(rng.randint(int(lo*den), int(hi*den)), den)


def scenario(rng, scheme, quad, semi, mixed=False):
    n = 2 if not mixed else 4
    dt = F(1, rng.choice([2, 4, 5, 8, 10, 20]))*rng.choice([1, 3])
    m = F(9, 10)/dt        # keeps 1 - dt*lambda away from zero
    neg = rng.random() < 0.5
    def lam():
        x = q(rng, -2, 0.4)*m
        return x if not neg else -abs(x)
    a, b = [lam()/2 for _ in range(n)], [lam()/2 for _ in range(n)]
    if mixed:
        a[2:], b[2:] = a[:2], b[:2]
    kap = [F(0)]*n
    if quad:
        kap = [q(rng, -0.2, 0.2)*m/4 for _ in range(n)]
        if mixed:
            kap[2:] = kap[:2]
        if all(k == 0 for k in kap):
            kap[0] = m/32
    if scheme == 'SteadyState':
        a = [-abs(x) - 1 for x in a]
        b = [-abs(x) for x in b]
    fconst = scheme in ('ForwardEuler', 'CrankNicolson') and rng.random() < 0.25
    f0 = [q(rng, -1, 1)*m for _ in range(n)]
    f1 = [q(rng, -1, 1)*m/dt/2 for _ in range(n)]
    if fconst:
        f0, f1 = [f0[0]]*n, [f1[0]]*n
    z = rng.random()
    if z < 0.15:
        f1 = [F(0)]*n
    u0 = [q(rng, -1.5, 1.5) for _ in range(n)]
    t0 = rng.choice([F(0), F(0), F(3), F(-1, 2), F(1000)])
    f0 = [x - y*t0 for x, y in zip(f0, f1)]
    cfg = {'scheme': scheme, 'n': n, 'a': a, 'b': b, 'kap': kap, 'f0': f0, 'f1': f1, 'u0': u0,
           't0': t0, 'dt': dt,
           'theta': rng.choice([F(1, 2), F(1, 2), F(3, 5), F(1)]), 'semi': semi,
           'forc': rng.random() < 0.85, 'fconst': fconst, 'mixed': mixed}
    cfg = {k: ([str(x) for x in v] if isinstance(v, list) else str(v) if isinstance(v, F) else v) for k, v in cfg.items()}
    prog = []
    # these classes keep their own copy of the solution between steps
    stale = scheme in ERK and scheme != 'SSPRK33' and 'ShuOsher' not in scheme or scheme in IMEX
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.3:
            dt = dt/rng.choice([2, 4, 1])
            prog.append(['set_dt', str(dt)])
        elif r < 0.55 and not stale:
            prog.append(['perturb', [str(q(rng, -1.5, 1.5)) for _ in range(n)]])
        elif r < 0.7 and scheme in ('LeapFrogAM3', 'SSPRK22ALE') and not mixed:
            prog.append(['mesh', rng.choice(['2', '3/2', '1/2', '5/4', '1'])])
        def mesh():
            if rng.random() < 0.7:
                prog.append(['mesh', rng.choice(['2', '3/2', '1/2', '5/4', '1'])])
        r = rng.random()
        if scheme == 'LeapFrogAM3' and r < 0.6:
            prog.append(['predict'])
            prog.append(['eval_rhs'])
            mesh()
            prog.append(['correct'])
        elif scheme == 'SSPRK22ALE' and r < 0.6:
            prog.append(['prep1'])
            mesh()
            prog.append(['solve1'])
            prog.append(['prep2'])
            mesh()
            prog.append(['solve2'])
        elif scheme == 'CrankNicolson' and r < 0.5:
            p = rng.randint(1, 3)
            for i in range(p):
                prog.append(['picard', i == 0, i == p - 1])
        else:
            prog.append(['step'])
    # the leapfrog scheme solves with the mass matrix of its last correction: a mesh may only move within a step
    if scheme == 'LeapFrogAM3':
        prog = [e for i, e in enumerate(prog) if e[0] != 'mesh' or (i > 0 and prog[i-1][0] == 'eval_rhs')]
    return {'cfg': cfg, 'prog': prog, 'group': '%s-%s-%s-%s-%s' % (scheme, quad, semi and quad, mixed, fconst)}


def scenarios(rng, schemes, per):
    res = []
    for s in schemes:
        for k in range(per):
            quad = s in UFORM + ['CrankNicolson', 'ForwardEuler', 'SSPRK33', 'LeapFrogAM3', 'SSPRK22ALE'] and k % 2 == 1
            semi = k % 4 == 1 and (s in UFORM + ['CrankNicolson'])
            if s in DIRK and k % 4 == 1:
                quad = semi = True
            mixed = s in ('DIRK22', 'DIRK33', 'CrankNicolson', 'DIRK22UForm', 'SSPRK33', 'IMEXLPUM2') and k % 4 == 2
            res.append(scenario(rng, s, quad, semi, mixed))
    return res
