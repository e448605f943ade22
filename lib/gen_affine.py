"""Scenarios for Affine.tla: affine states, consistent boundary data, one solver per setup."""
from fractions import Fraction as F


def S(name, family='dg-dg', nl=True, visc='none', sides=('uv',)*4, flow='any', quad=False, lax=True):
    return dict(mode='swe', name=name, family=family, nl=nl, visc=visc, sides=list(sides), flow=flow, quad=quad, lax=lax)


def T(name, cons=False, diff=True, sides=('value',)*4, trfam='dg', quad=False, lax=True, flow='any', family='dg-dg', nl=True, kvar=False):
    return dict(mode='tracer', name=name, cons=cons, diff=diff, sides=list(sides), trfam=trfam, quad=quad, lax=lax, flow=flow,
                family=family, nl=nl, visc='none', kvar=kvar)


QUICK = [
    S('dg-any', visc='graddiv', sides=('uv', 'elev+uv', 'uv', 'elev+uv')),
    S('rt-chan', family='rt-dg', sides=('un', 'elev+flux', 'closed', 'closed'), flow='channel'),
    S('bdm-corner', family='bdm-dg', sides=('closed', 'elev', 'closed', 'elev+uv'), flow='corner'),
    S('dgcg-any', family='dg-cg', visc='full', sides=('elev+uv', 'uv', 'elev+uv', 'uv')),
    S('dg-lin', nl=False, quad=True, sides=('un', 'flux', 'elev+un', 'elev+flux')),
    S('dg-visc', visc='graddepth', sides=('elev+un', 'flux', 'closed', 'closed'), flow='channel-flat'),
    T('t-dg', sides=('value', 'value+uv', 'value+un', 'value+flux')),
    T('t-cons', cons=True, quad=True, sides=('un', 'diff_flux', 'elev+flux', 'value+uv')),
    T('t-cg', trfam='cg', sides=('value+un', 'value', 'none', 'none'), flow='c-along'),
]
MORE = [
    S('rt-any', family='rt-dg', visc='full', sides=('elev+uv', 'uv', 'elev+uv', 'uv')),
    S('rt-corner', family='rt-dg', sides=('closed', 'elev+uv', 'closed', 'elev'), flow='corner', lax=False),
    S('bdm-any', family='bdm-dg', visc='graddiv', sides=('uv', 'elev+uv', 'uv', 'elev+uv')),
    S('bdm-visc', family='bdm-dg', visc='graddepth', sides=('un', 'elev+flux', 'closed', 'closed'), flow='channel-flat'),
    S('dgcg-chan', family='dg-cg', sides=('flux', 'elev+un', 'closed', 'closed'), flow='channel'),
    S('dgcg-lin', family='dg-cg', nl=False, sides=('un', 'elev', 'elev+flux', 'flux')),
    S('dgcg-corner', family='dg-cg', sides=('closed', 'elev+uv', 'closed', 'uv'), flow='corner'),
    S('quad-any', quad=True, visc='graddepth', sides=('uv', 'elev+uv', 'elev+uv', 'uv')),
    S('quad-corner', quad=True, sides=('closed', 'uv', 'closed', 'elev'), flow='corner'),
    S('dg-linv', nl=False, visc='full', sides=('un', 'elev+un', 'uv', 'elev+un')),
    S('rt-lin', family='rt-dg', nl=False, visc='graddiv', sides=('un', 'elev+un', 'elev+uv', 'un'), lax=False),
    T('t-none', sides=('value', 'diff_flux', 'none', 'none'), flow='c-along'),
    T('t-cons-tri', cons=True, sides=('value+flux', 'value+elev+flux', 'value+un', 'uv')),
    T('t-cons-nodiff', cons=True, diff=False, sides=('none', 'value', 'flux', 'un')),
    T('t-rt', family='rt-dg', quad=False, sides=('value+un', 'diff_flux', 'uv', 'flux'), lax=False),
    T('t-quad', quad=True, sides=('value', 'value+un', 'diff_flux', 'value+flux')),
    T('t-cg-cons', cons=True, trfam='cg', sides=('value+uv', 'diff_flux', 'value', 'un')),
    T('t-kvar', kvar=True, sides=('value', 'value+uv', 'value+un', 'diff_flux')),
    T('t-lin', nl=False, cons=True, sides=('value+flux', 'elev+flux', 'none', 'none'), flow='c-along'),
]


def s_(x):
    return str(F(x))


def scenario(rng, g, geom):
    def r(a, b, zero=0.15):
        if rng.random() < zero:
            return F(0)
        return F(rng.randint(-50, 50)*2 + 1, 101)*(F(str(b)) - F(str(a)))/2 + (F(str(a)) + F(str(b)))/2

    def poly(a, b, slope, zero=0.15):
        return [r(a, b, zero), r(-slope, slope, zero), r(-slope, slope, zero)]

    def const(a, b, zero=0.15):
        return [r(a, b, zero), F(0), F(0)]

    fl = g['flow']
    u, v = poly(-1, 1, 0.3), poly(-1, 1, 0.3)
    if fl in ('channel', 'channel-flat'):
        v = [F(0)]*3
        if fl == 'channel-flat':
            u[2] = F(0)
    if fl == 'corner':
        u, v = [F(0), r(-0.3, 0.3), F(0)], [F(0), F(0), r(-0.3, 0.3)]
    eta, b = poly(-1, 1, 0.05), poly(20, 30, 0.5, 0)
    p3 = lambda p: [s_(x) for x in p]
    c = {'mode': g['mode'], 'dt': s_(F(rng.randint(1, 40), 41)), 't': s_(rng.randint(0, 10)), 'tol': '1e-9', 'geom': geom, 'nl': g['nl'],
         'sides': g['sides']}
    if g['mode'] == 'swe':
        f = const(-0.5, 0.5)
        wind = [F(0), F(0)]
        special = rng.random()
        if special < 0.2 and fl not in ('corner',):
            u, v = [u[0], F(0), F(0)], [v[0], F(0), F(0)]
            f = poly(-0.5, 0.5, 0.1)
        if special > 0.6:
            # uniform depth, wind
            if g['nl']:
                b = [b[0], -eta[1], -eta[2]]
            else:
                b = [b[0], F(0), F(0)]
            wind = [r(-9000, 9000, 0), r(-9000, 9000, 0)]
        depth = [x + y for x, y in zip(b, eta)] if g['nl'] else b
        nuk = r(0.01, 0.2, 0)
        nu = [nuk*x for x in depth] if g['visc'] == 'graddepth' else poly(4, 6, 0.3, 0)
        if g['visc'] == 'none':
            nu = [F(0)]*3
        c.update(eta=p3(eta), u=p3(u), v=p3(v), b=p3(b), visc=g['visc'], nu=p3(nu), nuk=s_(nuk), f=p3(f), lin=s_(r(0, 0.5)),
                 mom=[p3(poly(-1, 1, 0.3)), p3(poly(-1, 1, 0.3))], wind=[s_(x) for x in wind], vol=p3(poly(-1, 1, 0.1)),
                 pres=p3([r(-9000, 9000), r(-900, 900), r(-900, 900), r(-90, 90), r(-90, 90), r(-90, 90)]), scale='30')
    else:
        k = const(0.2, 1.5, 0)
        if g['kvar']:
            u, v = [u[0], F(0), F(0)], [v[0], F(0), F(0)]
            k = poly(0.5, 1.5, 0.05, 0)
        x = poly(-5, 5, 1)
        src = const(-1, 1)
        if not g['cons']:
            src = poly(-1, 1, 0.1)
        if fl == 'c-along':
            # no normal gradient on sides 3 and 4 (along the first edge vector)
            x[2] = F(0)
        diff = poly(4, 6, 0.3, 0) if g['diff'] else [F(0)]*3
        c.update(eta=p3(eta), u=p3(u), v=p3(v), b=p3(b), k=p3(k), cons=g['cons'], c=p3(x), diff=p3(diff), src=p3(src), scale='30')
    return {'cfg': c, 'group': g['name'], 'opts': g, 'setup': 15}


def geometry(rng, g):
    a, b = rng.randint(6, 10), rng.randint(5, 9)
    if g['flow'] == 'corner':
        return ['0', '0', s_(a), '0', '0', s_(b)]
    if g['flow'] != 'any':
        return [s_(rng.randint(-3, 3)), s_(rng.randint(-3, 3)), s_(a), '0', '0', s_(b)]
    return [s_(rng.randint(-3, 3)), s_(rng.randint(-3, 3)), s_(a), s_(rng.randint(-3, 3)), s_(rng.randint(-3, 3)), s_(b)]


def scenarios(rng, n, groups=None):
    groups = groups or QUICK
    geo = {g['name']: geometry(rng, g) for g in groups}
    return [scenario(rng, groups[i % len(groups)], geo[groups[i % len(groups)]['name']]) for i in range(n)]


def named(*names):
    return [g for g in QUICK + MORE if g['name'] in names]
