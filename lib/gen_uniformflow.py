"""Scenarios for UniformFlow.tla: uniform states and forcings of the 2D model."""
from vf import rat
from fractions import Fraction

TR = [{'cons': False}, {'cons': True}, {'cons': False}]


def G(name, scheme, semi=False, drag='none', kind='func', nl=True, wd='none', family='dg-dg', deg=1, turb=False,
      tracers=0, tscheme=None, tronly=False, visc=False, setup=18, theta='1/2', ttheta='1/2', weight=1, picard=0):
    return dict(name=name, scheme=scheme, semi=semi, drag=drag, kind=kind, nl=nl, wd=wd, family=family, deg=deg,
                turb=turb, tracers=tracers, tscheme=tscheme or scheme, tronly=tronly, visc=visc, setup=setup,
                theta=theta, ttheta=ttheta, weight=weight, picard=picard)


QUICK = [
    G('cn-quad', 'CrankNicolson', drag='quadratic', tracers=2, weight=2),
    G('cn-expr', 'CrankNicolson', drag='quadratic', kind='expr', tracers=1, theta='0.7', ttheta='0.6'),
    G('cn-mann-semi', 'CrankNicolson', semi=True, drag='manning', kind='const', turb=True),
    G('cn-niku', 'CrankNicolson', drag='nikuradse', kind='const', theta='1'),
    G('be-mann', 'BackwardEuler', drag='manning', kind='func', turb=True),
    G('ssp-quad', 'SSPRK33', drag='quadratic', tracers=3, kind='func', turb=True, setup=14),
    G('ssp-niku', 'SSPRK33', drag='nikuradse', kind='const', setup=12),
    G('fe-mann', 'ForwardEuler', drag='manning', kind='func', tracers=2, setup=12),
    G('fe-expr', 'ForwardEuler', drag='quadratic', kind='expr', tracers=2, tscheme='SSPRK33', setup=12),
    G('dirk22', 'DIRK22', semi=True, drag='quadratic', kind='func'),
    G('dirk33', 'DIRK33', semi=True, drag='manning', kind='expr'),
    G('cn-wd', 'CrankNicolson', drag='manning', wd='1/2', kind='const', theta='0.6'),
    G('cn-lin', 'CrankNicolson', drag='quadratic', nl=False, kind='func', family='rt-dg'),
    G('ppp', 'PressureProjectionPicard', semi=True, drag='quadratic', kind='func', family='dg-cg', picard=2, theta='0.6', tscheme='CrankNicolson'),
    G('tronly', 'CrankNicolson', tronly=True, tracers=3, kind='func', ttheta='0.75', setup=8),
]
MORE = [
    G('cn-dgcg', 'CrankNicolson', drag='quadratic', kind='func', family='dg-cg', turb=True),
    G('cn-bdm', 'CrankNicolson', semi=True, drag='nikuradse', kind='const', family='bdm-dg'),
    G('cn-p0', 'CrankNicolson', drag='manning', kind='func', deg=0, tracers=2),
    G('cn-visc', 'CrankNicolson', drag='manning', kind='expr', visc=True, turb=True),
    G('be-semi', 'BackwardEuler', semi=True, drag='quadratic', kind='func', tracers=2),
    G('be-wd', 'BackwardEuler', drag='quadratic', wd='1/2', kind='func'),
    G('be-rt', 'BackwardEuler', drag='nikuradse', family='rt-dg', kind='func'),
    G('ssp-mann', 'SSPRK33', drag='manning', tracers=2, kind='expr', tscheme='CrankNicolson'),
    G('ssp-lin', 'SSPRK33', drag='quadratic', nl=False, kind='func'),
    G('fe-niku', 'ForwardEuler', drag='nikuradse', tracers=2, kind='const', turb=True),
    G('dirk22-niku', 'DIRK22', semi=True, drag='nikuradse', kind='const', turb=True),
    G('dirk33-none', 'DIRK33', semi=True, kind='func', tracers=2, tscheme='SSPRK33'),
    G('dirk22-lin', 'DIRK22', semi=True, drag='manning', nl=False, kind='const'),
    G('ppp-1', 'PressureProjectionPicard', semi=True, drag='manning', kind='const', family='dg-cg', picard=1, tscheme='CrankNicolson', tracers=2),
    G('ppp-3', 'PressureProjectionPicard', semi=True, drag='nikuradse', kind='expr', family='dg-cg', picard=3, tscheme='CrankNicolson', turb=True, theta='1'),
    G('ppp-dgdg', 'PressureProjectionPicard', semi=True, drag='quadratic', kind='func', picard=2, tscheme='SSPRK33', tracers=2),
    G('ppp-wd', 'PressureProjectionPicard', semi=True, drag='manning', kind='func', picard=2, tscheme='CrankNicolson', family='dg-cg', wd='1/2', theta='0.7'),
    G('tronly-ssp', 'SSPRK33', tronly=True, tracers=3, kind='expr'),
    G('tronly-fe', 'ForwardEuler', tronly=True, tracers=3, kind='func'),
    G('cn-semi-expr', 'CrankNicolson', semi=True, drag='nikuradse', kind='expr', tracers=3, theta='0.55'),
]


def scenario(rng, g):
    def r(a, b, zero=0.2):
        if rng.random() < zero:
            return '0'
        x = Fraction(rng.randint(1, 97), 97)*(Fraction(str(b)) - Fraction(str(a))) + Fraction(str(a))
        return rat(float(x))

    expl = g['scheme'] in ('SSPRK33', 'ForwardEuler')
    dt = rat(rng.choice([0.5, 2.0, 7.5, 20.0])) if not expl else rat(rng.choice([0.5, 2.0, 5.0]))
    niku = g['drag'] == 'nikuradse'
    b = rat(rng.choice([2.0, 5.0, 12.5, 60.0]))
    if g['wd'] == 'none' and float(Fraction(dt)) > 5:
        b = rat(max(float(Fraction(b)), 12.5))
    if g['wd'] != 'none' and rng.random() < 0.6:
        b = rat(rng.choice([-0.3, 0.1, 0.4]))
    # Nikuradse: also depths below the roughness length
    dragc = {'none': '0', 'quadratic': r(0.001, 0.05), 'manning': r(0.01, 0.08), 'nikuradse': r(0.001, 0.5, 0)}[g['drag']]
    if niku and rng.random() < 0.2:
        dragc = '100'
    lim = 0.02 if g['wd'] == 'none' else 0.03
    if g['wd'] != 'none':
        dt = rat(rng.choice([0.5, 2.0]))
    sh = float(Fraction(b)) < 1
    cfg = {
        'scheme': g['scheme'], 'tscheme': g['tscheme'], 'semi': g['semi'], 'picard': g['picard'], 'kind': g['kind'], 'nl': g['nl'], 'wd': g['wd'],
        'family': g['family'], 'deg': g['deg'], 'tronly': g['tronly'], 'visc': g['visc'],
        'drag': g['drag'], 'dragc': dragc, 'theta': rat(float(Fraction(g['theta']))), 'ttheta': rat(float(Fraction(g['ttheta']))),
        'b': b, 'f': r(-0.05, 0.05), 'lin': r(0, 0.04), 'norm': r(0, 0.5, 0.5),
        'turb': {'use': g['turb'], 'ct': rat(0.8), 'diam': '6', 'density': r(0, 0.002) if g['turb'] else '0'},
        'tau': [r(-50, 50) if not sh else r(-1, 1), r(-1, 1), r(-50, 50) if not sh else r(-1, 1), r(-1, 1)],
        'mom': [r(-0.01, 0.01), r(-1e-4, 1e-4), r(-0.01, 0.01), r(-1e-4, 1e-4)],
        'vol': [r(-lim, lim), r(-lim/100, lim/100)],
        'press': [r(-5, 5), r(-0.1, 0.1), r(-5, 5), r(-0.1, 0.1)],
        'dt': dt, 't0': rng.choice(['0', '100']), 'u': r(-1.5, 1.5), 'v': r(-1.5, 1.5), 'eta': r(-0.5, 0.5) if not sh else r(-1, 0.3),
        'steps': rng.choice([2, 3]),
        'tracers': [{'c': r(-3, 10), 's0': r(-0.1, 0.1, 0.1), 's1': r(-0.01, 0.01, 0.1), 'cons': TR[i]['cons']}
                    for i in range(g['tracers'])],
    }
    if sh:
        cfg['vol'] = [x.lstrip('-') for x in cfg['vol']]     # a thin layer cannot be drained
    if cfg['u'] == '0' and cfg['v'] == '0' and not expl and not g['semi']:
        cfg['v'] = '1/4'        # Newton's method for |u| u starts from the old state
    return {'cfg': cfg, 'group': g['name'], 'setup': g['setup']}


def scenarios(rng, n, groups=None):
    gs = groups or QUICK
    tot = sum(g['weight'] for g in gs)
    return [scenario(rng, g) for g in gs for _ in range(max(2, n*g['weight']//tot))]
