"""Scenarios for Fluxes.tla: discontinuous states of degree 0 and 1, all kinds of boundaries, one solver per group."""
from fractions import Fraction as F


def K(s):
    return [x.split('+') if x else [] for x in s.split('|')]


def S(name, p=0, scheme='FE', nl=True, lf=True, visc='none', sides='|||', quad=False, nx=3, ny=2, theta=0.5, setup=18):
    return dict(mode='swe', name=name, p=p, scheme=scheme, nl=nl, lf=lf, visc=visc, sides=K(sides), quad=quad, nx=nx, ny=ny, lx=9, ly=7,
                theta=theta, setup=setup)


def T(name, pu=1, scheme='FE', nl=True, lf=True, diff=True, cons=False, sides='|||', nx=3, ny=2, theta=0.5, setup=10):
    return dict(mode='tracer', name=name, p=1, pu=pu, scheme=scheme, nl=nl, lf=lf, diff=diff, cons=cons, sides=K(sides), quad=False, nx=nx, ny=ny,
                lx=9, ly=7, theta=theta, visc='none', setup=setup)


# interior and walls
QUICK = [
    S('s0', visc='graddiv', sides='|||drag', quad=True, ny=3),
    S('s1', p=1, visc='graddiv', sides='|drag||', setup=22),
    S('s1-full', p=1, visc='full', lf=False, sides='|||'),
    S('s1-cns', p=1, scheme='CNS', sides='|||drag', theta=0.6),
    T('t0', pu=0, sides='|||', ny=3),
    T('t1', sides='|||'),
    T('t1-cons', cons=True, sides='|||'),
]
# open boundaries
OPEN = [
    S('o0', sides='elev|uv|un|flux', visc='graddiv'),
    S('o1', p=1, visc='graddiv', sides='elev+uv|elev+un|elev+flux|elev', setup=22),
    S('o1-full', p=1, visc='full', sides='un|elev|uv|flux', setup=22),
    S('o0-cns', scheme='CNS', sides='elev|flux|elev+un|un', quad=True, theta=0.7),
    T('p0', pu=0, sides='value|value+uv|un|value+flux'),
    T('p1', sides='value+un|diff_flux|value|value+elev+flux'),
    T('p1-cons', cons=True, sides='value+un|value+uv|value+flux|diff_flux'),
]
MORE = [
    S('s0-tri', visc='full', sides='drag||drag|', ny=3),
    S('s0-lin', nl=False, visc='graddiv', sides='|||', quad=True),
    S('s1-lin', p=1, nl=False, visc='full', sides='|drag||'),
    S('s0-cn', scheme='CN', visc='full', sides='|||drag', theta=0.6),
    S('s1-be', p=1, scheme='BE', visc='graddiv', sides='|||'),
    S('s0-cns', scheme='CNS', visc='graddiv', sides='drag|||', quad=True, theta=0.8),
    S('o0-lin', nl=False, sides='elev+uv|elev+flux|elev|un', visc='full'),
    S('o1-lin', p=1, nl=False, sides='elev+un|flux|uv|elev'),
    S('o1-cn', p=1, scheme='CN', sides='elev|uv|elev+flux|', theta=0.6),
    S('o0-be', scheme='BE', sides='elev|flux|un|elev+uv', visc='graddiv'),
    S('o1-cns', p=1, scheme='CNS', sides='elev+un|flux|elev+uv|drag', visc='graddiv', theta=0.55, setup=25),
    S('o0-mix', sides='elev|flux+drag|elev+drag|', quad=True, visc='full', lf=False),
    S('o0-fe2', sides='un|elev+un|elev+uv|elev+flux', quad=True, visc='graddiv', ny=3),
    T('t0-cons', pu=0, cons=True, sides='|||', ny=3),
    T('t0-nolf', pu=0, lf=False, diff=False, sides='|||', ny=3),
    T('t1-cn', scheme='CN', sides='|||', theta=0.7),
    T('t1-be', scheme='BE', cons=True, sides='|||'),
    T('p0-cons', pu=0, cons=True, sides='value|value+elev+flux|un|uv'),
    T('p1-cn', scheme='CN', sides='value|value+flux|uv|value+un', theta=0.6),
    T('p1-more', sides='value+uv|flux|un|diff_flux+value+un'),
    T('p1-cons-lin', nl=False, cons=True, sides='value|elev+flux|value+elev+flux|', lf=False),
    T('p1-nodiff', diff=False, sides='value|value+un|value+uv|value+flux'),
]


def scenario(rng, g):
    def r(a, b, zero=0.15):
        if rng.random() < zero:
            return F(0)
        return F(rng.randint(-50, 50)*2 + 1, 101)*(F(str(b)) - F(str(a)))/2 + (F(str(a)) + F(str(b)))/2

    def poly(a, b, slope, zero=0.15):
        return [str(x) for x in (r(a, b, zero), r(-slope, slope, zero), r(-slope, slope, zero))]

    def const(a, b):
        return [str(r(a, b)), '0', '0']

    p = g['p']
    sides = []
    for kind in g['sides']:
        sides.append({'kind': kind, 'elev': str(r(-1.5, 1.5)), 'u': str(r(-1, 1)), 'v': str(r(-1, 1)), 'un': str(r(-1, 1)),
                      'flux': str(r(-90, 90)), 'value': str(r(-3, 3)), 'diff_flux': str(r(-3, 3)), 'drag': str(r(0, 2))})
    c = {'mode': g['mode'], 'p': p, 'lx': str(g['lx']), 'ly': str(g['ly']), 'scheme': g['scheme'], 'theta': str(F(str(g['theta']))),
         'dt': str(F(rng.randint(1, 30), 301)), 't': str(rng.randint(0, 9)), 'tol': '1e-9', 'steps': rng.choice([1, 2]), 'nl': g['nl'],
         'b': poly(12, 20, 0.3, 0), 'lf': str(r(0.1, 1.5)) if g['lf'] else 'none', 'sipg': str(r(0.5, 2, 0)), 'sides': sides, 'scale': '10',
         'seed': rng.randint(0, 10**6), 'amp': [str(r(0.2, 1.5, 0)), str(r(0.2, 1.5, 0)), str(r(1, 5, 0))]}
    if g['mode'] == 'swe':
        c.update(visc=g['visc'], nu=poly(4, 6, 0.3, 0), f=poly(-0.5, 0.5, 0.05) if p == 0 else const(-0.5, 0.5), lin=str(r(0, 0.5)),
                 quad=str(r(0, 0.5)) if p == 0 else '0', smooth=str(r(0, 0.5)), wind=[str(r(-9000, 9000)), str(r(-9000, 9000))] if p == 0 else ['0', '0'],
                 mom=[poly(-1, 1, 0.3), poly(-1, 1, 0.3)], vol=poly(-1, 1, 0.1), pres=poly(-9000, 9000, 900))
    else:
        c.update(cons=g['cons'], k=str(r(0.3, 1.5, 0)), diff=poly(4, 6, 0.3, 0), isdiff=g['diff'],
                 src=const(-1, 1) if g['cons'] and p == 1 else poly(-1, 1, 0.1))
    return {'cfg': c, 'group': g['name'], 'opts': g, 'setup': g['setup']}


def scenarios(rng, n, groups=None):
    groups = groups or QUICK + OPEN
    return [scenario(rng, groups[i % len(groups)]) for i in range(n)]


def named(*names):
    return [g for g in QUICK + OPEN + MORE if g['name'] in names]
