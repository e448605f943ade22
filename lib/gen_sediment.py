"""Scenarios for Sediment.tla."""
from fractions import Fraction as F
from vf import rat


def G(name, mode, susp=True, bed=False, cons=False, adv=True, angle=False, mag=False, secc=False, exner=True, tronly=True, sscheme='BackwardEuler',
      escheme='BackwardEuler', theta='1', swe='CrankNicolson', niku=False, porkind='const', diff=False, slide=False, limiter=False, eqbnd=False,
      viscopt='own', picard=1, setup=25, sides=('none',)*4, start=None):
    return dict(locals())


QUICK = [
    G('m-susp', 'model', setup=20),
    G('m-bed', 'model', susp=False, bed=True, setup=20, viscopt='hv'),
    G('m-angle', 'model', susp=False, bed=True, angle=True, mag=True, setup=25),
    G('m-secc', 'model', bed=True, angle=True, mag=True, secc=True, setup=30),
    G('factor', 'factor', setup=8),
    G('r-be', 'run', tronly=False, niku=True, picard=2),
    G('r-cons', 'run', cons=True, sscheme='CrankNicolson', escheme='CrankNicolson', theta='0.6', porkind='func', diff=True),
    G('r-eq', 'run', eqbnd=True, cons=True, start='equilibrium', sscheme='SSPRK33', escheme='ForwardEuler'),
    G('b-plain', 'bed', susp=False, bed=True, escheme='ForwardEuler', sides='mix'),
    G('b-angle', 'bed', susp=False, bed=True, angle=True, mag=True, secc=True, escheme='ForwardEuler', sides='mix', porkind='func'),
    G('bud', 'budget', cons=True, bed=True, angle=True, mag=True, tronly=False, porkind='func', diff=True, setup=40),
    G('slide', 'slide', susp=False, bed=True, escheme='ForwardEuler', slide=True),
]
MORE = [
    G('m-noadv', 'model', adv=False, setup=20, viscopt='hv'),
    G('m-magsec', 'model', susp=False, bed=True, mag=True, secc=True, setup=25),
    G('m-sec', 'model', susp=False, bed=True, secc=True, setup=25),
    G('r-fe', 'run', sscheme='ForwardEuler', escheme='ForwardEuler', limiter=True, adv=False),
    G('r-dirk', 'run', sscheme='DIRK22', escheme='DIRK22', cons=True, tronly=False, niku=True),
    G('r-noex', 'run', exner=False, sscheme='SSPRK33', tronly=False),
    G('r-eqn', 'run', eqbnd=True, start='equilibrium', sscheme='CrankNicolson', theta='0.5', escheme='CrankNicolson', adv=False),
    G('r-bedsusp', 'run', picard=3, bed=True, angle=True, cons=True, swe='BackwardEuler', tronly=False),
    G('b-mag', 'bed', susp=False, bed=True, mag=True, escheme='ForwardEuler', sides='mix', porkind='default'),
    G('b-sec', 'bed', susp=False, bed=True, secc=True, mag=True, escheme='ForwardEuler', sides='mix'),
    G('bud-cn', 'budget', cons=True, tronly=False, sscheme='CrankNicolson', escheme='CrankNicolson', theta='0.6', swe='BackwardEuler'),
    G('bud-bed', 'budget', susp=False, bed=True, angle=True, mag=True, secc=True, tronly=False, escheme='CrankNicolson', theta='0.5'),
    G('bud-rest', 'budget', cons=True, bed=True, secc=True, tronly=True, start='rest'),
]
KINDS = ['none', 'drag', 'un0', 'uv0', 'flux0', 'elev', 'elevf', 'un', 'unf', 'uv', 'uvc', 'uvf', 'flux', 'fluxf', 'elevun', 'elevdrag', 'undrag']


def scenario(rng, g, i=0):
    def r(a, b):
        return rat(round(rng.uniform(a, b), 6))

    def s(x):
        return rat(float(x))

    p = {'size': s(rng.choice([8e-5, 1.5e-4, 2.6e-4, 5e-4, 9e-4, 1.2e-3, 3e-3])*round(rng.uniform(0.9, 1.1), 3)),
         'zref': s(rng.choice([2e-4, 1e-3, 5e-3, 0.02])), 'rhos': s(rng.choice([2650, 2000, 2300.5])),
         'visc': s(rng.choice([1e-6, 1.3e-6, 8e-7])), 'beta': r(0.5, 2), 'surb': r(0.3, 1), 'asec': r(0.3, 1), 'por': r(0.2, 0.6),
         'morfac': s(rng.choice([1, 3, 10])), 'angle': s(rng.choice([20, 32]))}
    mode = g['mode']
    if g['porkind'] == 'default':
        p['por'] = s(0.4)
    b0 = s(rng.choice([2.0, 5.0, 10.0]))

    def state(flat=False, h=None):
        q = rng.random()
        big = rng.choice([0.3, 1.0, 3.0])
        u, v = r(-big, big), r(-big, big)
        if q < 0.12:
            u = v = '0'
        elif q < 0.25:
            v = '0'
        bx = by = '0'
        if not flat and rng.random() < 0.8:
            bx, by = r(-0.05, 0.05), r(-0.05, 0.05)
        return {'u': u, 'v': v, 'h': h or s(round(float(F(b0))*rng.uniform(0.4, 1.5), 5)), 'bx': bx, 'by': by}

    states = [state() for _ in range(4 if mode == 'model' else 1)]
    if mode == 'model' and rng.random() < 0.15:
        # grains too fine for the model
        p['size'] = s(3e-5)
    cfg = {k: g[k] for k in ('mode', 'susp', 'bed', 'cons', 'adv', 'angle', 'mag', 'secc', 'exner', 'tronly', 'sscheme', 'escheme', 'theta', 'swe',
                             'niku', 'porkind', 'diff', 'slide', 'limiter', 'eqbnd', 'viscopt', 'picard')}
    cfg['theta'] = s(F(g['theta']))
    flat = state(True)
    cfg.update(p=p, b0=b0, states=states, lx='40', ly='30', dt='1', steps=3, sides=['none']*4, seed=rng.randint(0, 10**6),
               start={'u': flat['u'], 'v': flat['v'], 'b': b0, 'eta': r(-0.5, 0.5), 's': r(0, 0.02)})
    if g['start'] == 'equilibrium':
        cfg['start']['s'] = 'equilibrium'
    if mode == 'run':
        # keep the deposition within the stability limit of explicit schemes and the bed change small
        cfg['dt'] = s(rng.choice([0.02, 0.1, 0.5]))
        if g['sscheme'] in ('ForwardEuler', 'SSPRK33'):
            cfg['dt'] = s(0.02)
            p['zref'] = s(0.02)
            p['size'] = s(rng.choice([8e-5, 1.5e-4, 2.6e-4, 5e-4]))
        if cfg['start']['u'] == '0' and cfg['start']['v'] == '0':
            cfg['start']['u'] = r(0.3, 1)
        cfg['start']['s'] = cfg['start']['s'] if g['start'] else r(0, 0.002)
        if g['bed'] is False and g['susp'] and g['eqbnd']:
            cfg['start']['eta'] = r(-0.5, 0.5)
    if mode == 'bed':
        sides = [rng.choice(KINDS) for _ in range(4)]
        if i < len(KINDS):
            sides[i % 4] = KINDS[(5*i + 3) % len(KINDS)]
        cfg['sides'] = sides
        x = states[0]
        if x['u'] == '0' and rng.random() < 0.7:
            x['u'], x['v'] = r(-2, 2), r(-2, 2)
    if mode == 'factor':
        cfg['factors'] = []
        for _ in range(5):
            ws = rng.uniform(0.01, 0.2)
            k = rng.choice([0, 1e-4, -1e-4, 0.3, -0.3, 3])
            cfg['factors'].append({'h': r(0.001, 5), 'aref': r(0.0001, 0.01), 'ksp': r(0.0003, 0.003), 'ws': s(ws), 'us': s(ws/0.4/(1 + k))})
    if mode == 'budget':
        cfg['start'].update(u='0' if g['start'] == 'rest' else r(0.5, 2), s=r(0, 0.002))
        cfg['dt'] = s(rng.choice([0.05, 0.2]))
        p['morfac'] = s(rng.choice([1, 2]))
    if mode == 'slide':
        steep = rng.random() < 0.7
        t = rng.uniform(0.8, 1.2) if steep else rng.uniform(0.05, 0.3)
        f = rng.choice([(1, 0), (0, -1), (0.6, 0.8)])
        states[0] = {'u': '0', 'v': '0', 'h': '5', 'bx': s(round(t*f[0], 4)), 'by': s(round(t*f[1], 4))}
        cfg['dt'] = s(rng.choice([0.2, 0.5]))
        p['morfac'] = '1'
    out = {'cfg': cfg, 'group': 'sediment-' + g['name'], 'setup': g['setup'], 'opts': {}}
    if mode == 'model':
        out['group'] += ('', '-b')[i % 2]
    return out


def slide_finding():
    """slope of 45 degrees with dt*morfac = 4: known finding"""
    import random
    g = [x for x in QUICK if x['name'] == 'slide'][0]
    sc = scenario(random.Random(1), g)
    c = sc['cfg']
    c['p'].update(angle='20', morfac='4', por='2/5')
    c['dt'] = '1'
    c['states'] = [{'u': '0', 'v': '0', 'h': '5', 'bx': '1', 'by': '0'}]
    sc['finding'] = 'slide-cosine'
    return sc


def scenarios(rng, n, groups=None):
    groups = groups or QUICK
    return [scenario(rng, groups[i % len(groups)], i // len(groups)) for i in range(n)]


def named(*names):
    return [g for g in QUICK + MORE if g['name'] in names]
