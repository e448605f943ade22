"""Scenarios for Ledger.tla: closed basins."""
from vf import rat
from fractions import Fraction


def G(name, scheme, tscheme=None, semi=False, nl=True, wd='none', family='dg-dg', deg=1, quad=False, tronly=False,
      lim=False, lax=True, visc=False, theta='1/2', ttheta='1/2', forms=('cons', 'non'), diffs=(True, False), setup=25, weight=1):
    return dict(name=name, scheme=scheme, tscheme=tscheme or scheme, semi=semi, nl=nl, wd=wd, family=family, deg=deg,
                quad=quad, tronly=tronly, lim=lim, lax=lax, visc=visc, theta=theta, ttheta=ttheta, forms=forms, diffs=diffs,
                setup=setup, weight=weight)


QUICK = [
    G('cn', 'CrankNicolson'),
    G('cn-rt', 'CrankNicolson', family='rt-dg', visc=True, theta='0.6', forms=('cons',)),
    G('cn-wd', 'CrankNicolson', wd='1/2', theta='0.6', forms=('cons', 'non'), diffs=(False, False)),
    G('be-quad', 'BackwardEuler', quad=True, lax=False),
    G('ssp', 'SSPRK33', diffs=(False, True), forms=('non', 'non'), lim=True, visc=True),
    G('lin', 'DIRK22', tscheme='CrankNicolson', semi=True, nl=False, ttheta='0.7', forms=('cons', 'non')),
    G('tronly', 'CrankNicolson', tscheme='SSPRK33', tronly=True, lim=True, forms=('non', 'non', 'cons'), diffs=(True, False, True), setup=15),
    G('tronly-cn', 'CrankNicolson', tronly=True, forms=('non', 'non', 'cons'), diffs=(False, True, False), setup=15, lim=False, ttheta='0.7'),
]
MORE = [
    G('cn-dgcg', 'CrankNicolson', family='dg-cg', semi=True, forms=('cons', 'non'), theta='0.7'),
    G('cn-bdm', 'CrankNicolson', family='bdm-dg', forms=('cons', 'non')),
    G('cn-p0', 'CrankNicolson', deg=0, forms=('cons', 'non'), diffs=(False, False)),
    G('cn-semi', 'CrankNicolson', semi=True, quad=True, forms=('cons', 'non')),
    G('be-wd', 'BackwardEuler', wd='1/2', tscheme='CrankNicolson', ttheta='0.75'),
    G('fe', 'ForwardEuler', forms=('cons', 'non')),
    G('ppp', 'PressureProjectionPicard', family='dg-cg', semi=True, tscheme='CrankNicolson', forms=('cons', 'non'), theta='0.6'),
    G('dirk33', 'DIRK33', semi=True, forms=('non', 'non'), tscheme='SSPRK33'),
    G('lin-rt', 'CrankNicolson', nl=False, family='rt-dg', forms=('cons',)),
    G('ssp-p0', 'SSPRK33', deg=0, forms=('non', 'non'), diffs=(False, False)),
    G('tronly-be', 'CrankNicolson', tscheme='BackwardEuler', tronly=True, forms=('non', 'cons'), diffs=(True, False)),
    G('tronly-fe', 'CrankNicolson', tscheme='ForwardEuler', tronly=True, forms=('non', 'cons'), diffs=(True, False)),
    G('tronly-dirk', 'CrankNicolson', tscheme='DIRK22', tronly=True, forms=('non', 'cons'), diffs=(True, False), lax=False),
]


def scenario(rng, g, typ):
    def r(a, b, zero=0.2):
        if rng.random() < zero:
            return '0'
        return rat(float(Fraction(rng.randint(1, 97), 97)*(Fraction(str(b)) - Fraction(str(a))) + Fraction(str(a))))

    expl = g['scheme'] in ('SSPRK33', 'ForwardEuler') or g['tscheme'] in ('SSPRK33', 'ForwardEuler')
    fe = 'ForwardEuler' in (g['scheme'], g['tscheme'])
    rest = typ == 'rest'
    dry = g['wd'] != 'none'
    b0 = rng.choice([8.0, 20.0]) if not dry else rng.choice([0.3, 2.0, 8.0])
    tracers = []
    for form, diff in zip(g['forms'], g['diffs']):
        if rest:
            kind = 'cons' if form == 'cons' else ('uniform' if diff or g['lim'] else 'frozen')
        elif form == 'cons':
            kind = 'cons' if g['tronly'] else 'consw'
        elif g['tronly'] and not (g['lim'] and rng.random() < 0.3):
            kind = 'div'
        else:
            kind = 'uniform'
        zero = 1 if kind in ('uniform', 'frozen') else 0.2
        tracers.append({'kind': kind, 'form': form, 'diff': diff, 'nu': r(1, 30) if diff else '0', 'c': r(-2, 10), 'amp': r(0.1, 2, 0),
                        's0': r(-0.01, 0.01, zero), 's1': r(-1e-3, 1e-3, zero)})
    cfg = {
        'scheme': g['scheme'], 'tscheme': g['tscheme'], 'semi': g['semi'], 'nl': g['nl'], 'wd': g['wd'], 'family': g['family'],
        'deg': g['deg'], 'quad': g['quad'], 'tronly': g['tronly'], 'lim': g['lim'], 'lax': g['lax'], 'visc': g['visc'],
        'theta': rat(float(Fraction(g['theta']))), 'ttheta': rat(float(Fraction(g['ttheta']))),
        'lx': '4000', 'ly': '3000', 'b': [rat(b0), r(-0.3*b0, 0.5*b0) if not dry else r(-2, 2), r(-0.2*b0, 0.2*b0)],
        'f': r(-1e-3, 1e-3), 'drag': r(0.001, 0.02), 'nu': r(1, 50) if g['visc'] else '0',
        'vol': ['0', '0', '0'] if rest or g['tronly'] else [r(0, 1e-3), r(0, 2e-7), r(0, 1e-2)],
        'pamp': r(100, 2000, 0.5) if g['deg'] else '0', 'eta0': r(-0.2, 0.3) if not dry else r(0, 0.3), 'etaamp': r(0.05, 0.3) if not dry else r(0.01, 0.1),
        'psi': r(10, 60, 0.1) if not fe else r(5, 20, 0.1), 'rest': rest,
        'dt': rat(rng.choice([1.0, 2.0])) if expl else rat(rng.choice([5.0, 20.0])), 't0': rng.choice(['0', '50']),
        'steps': rng.choice([2, 3]), 'seed': rng.randrange(10**6), 'tracers': tracers, 'tol': '5e-11' if g['family'] == 'dg-dg' and not rest else '1e-9',
    }
    if g['tronly'] and rng.random() < 0.5:
        cfg['dt'] = rat(10.0)
    return {'cfg': cfg, 'group': g['name'], 'setup': g['setup']}


WD = [
    G('cn-wd', 'CrankNicolson', wd='1/2', theta='0.6', forms=('cons', 'non'), diffs=(False, False)),
    G('be-wd', 'BackwardEuler', wd='1/2', tscheme='CrankNicolson', ttheta='0.75'),
    G('ppp-wd', 'PressureProjectionPicard', family='dg-cg', semi=True, tscheme='CrankNicolson', wd='1/2', forms=('cons',), diffs=(True,), theta='0.6'),
    G('cn-wd-rt', 'CrankNicolson', wd='3/10', family='rt-dg', theta='0.7', forms=('cons',), diffs=(True,)),
    G('cn-wd-quad', 'CrankNicolson', wd='2', quad=True, visc=True, forms=('non',), diffs=(False,), lim=True),
]


def named(*names):
    return [g for g in QUICK + MORE + WD if g['name'] in names]


def scenarios(rng, n, groups=None, types=('flow', 'flow', 'rest')):
    gs = groups or QUICK
    k = max(4, n // len(gs))
    out = []
    for g in gs:
        for i in range(k):
            typ = types[i % len(types)]
            out.append(scenario(rng, g, 'flow' if g['tronly'] else typ))
    return out
