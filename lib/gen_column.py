"""Scenarios for drivers/column.py"""
from fractions import Fraction

#       name             ti         impl   family   deg  n  drag        lin    ale
QUICK = [('ssp-impl', 'ssprk22', True, 'dg-dg', 1, 4, 'quadratic', False, True),
         ('ssp-expl', 'ssprk22', False, 'dg-dg', 1, 3, 'quadratic', True, True),
         ('lf-impl', 'leapfrog', True, 'dg-dg', 1, 3, 'quadratic', True, True),
         ('ssp-rt', 'ssprk22', True, 'rt-dg', 1, 3, 'rough', True, True),
         ('ssp-dg0', 'ssprk22', True, 'dg-dg', 0, 5, 'rough', False, False),
         ('lf-expl', 'leapfrog', False, 'dg-dg', 1, 4, 'rough', True, True)]
MORE = [('ssp-bdm', 'ssprk22', True, 'bdm-dg', 1, 2, 'quadratic', True, True),
        ('lf-rt', 'leapfrog', True, 'rt-dg', 1, 2, 'none', False, True),
        ('ssp-expl0', 'ssprk22', False, 'dg-dg', 0, 6, 'quadratic', True, True),
        ('ssp-one', 'ssprk22', True, 'dg-dg', 1, 1, 'rough', True, False),
        ('ssp-impl-deep', 'ssprk22', True, 'dg-dg', 1, 9, 'none', False, True)]


def s(x):
    return str(Fraction(x).limit_denominator(10**6))


def one(rng, g, k, long=False):
    name, ti, impl, fam, deg, n, drag, lin, ale = g
    h = 12 if n < 9 else 40
    e = rng.choice(['0', '1/2', '-3/4', '2']) if ale else rng.choice(['0', '1/2'])
    d = (h + (Fraction(e) if ale else 0))/n
    dt = rng.choice([20, 60, 300, Fraction(75, 2)])
    nodes = n*(2 if deg else 1)
    # explicit diffusion: dt nu 4 sipg/d^2 * 12 moderate
    nmax = Fraction(1, 20) if impl else d*d/(dt*200)

    def prof(a, zero=0.2):
        if rng.random() < zero:
            return ['0']*nodes
        if rng.random() < 0.15:
            return [s(rng.uniform(-a, a))]*nodes
        return [s(rng.uniform(-a, a)) for _ in range(nodes)]

    def lev(z=0.15):
        if rng.random() < z:
            return ['0']*(n + 1)
        if rng.random() < 0.3:
            return [s(float(nmax)*rng.uniform(0, 1))]*(n + 1)
        return [s(float(nmax)*rng.uniform(0, 1)) for _ in range(n + 1)]

    def forc(a, p=0.7):
        if rng.random() > p:
            return ['0']*4
        v = [rng.uniform(-a, a), rng.uniform(-a, a)/dt, rng.uniform(-a, a), rng.uniform(-a, a)/dt]
        if rng.random() < 0.3:
            v[1] = v[3] = 0
        return [s(x) if abs(x) > 1e-4 or x == 0 else str(Fraction(x).limit_denominator(10**9)) for x in v]

    cfg = dict(ti=ti, impl=impl, family=fam, deg=deg, n=n, h=str(h), e=e, ale=ale, dt=str(Fraction(dt)), t0=rng.choice(['0', '500']),
               f=rng.choice(['0', '1/10000', '-1/1500', '1/800']), uselin=lin,
               lin=rng.choice(['0', '1/20000', '1/2500']) if lin else '0',
               drag=drag, dragc={'none': '0', 'quadratic': rng.choice(['0', '1/400', '1/150']), 'rough': rng.choice(['1/50', '1/200', '1/10'])}[drag],
               sipg=rng.choice(['1', '3/2', '4']), sipgt=rng.choice(['1', '5/2']), nu=lev(), mu=lev(),
               tau=forc(0.8), s2=forc(2e-4), s3=forc(2e-4), q=prof(1.0, 0.0),
               u2=[s(rng.uniform(-1, 1)), s(rng.uniform(-1, 1))], ux=prof(0.5), uy=prof(0.5),
               tr=[dict(c=prof(3.0, 0.1), s0=s(rng.uniform(-.01, .01)), s1=s(rng.uniform(-1, 1)*1e-4), q=prof(1.0, 0.2)) for _ in range(2)],
               tight=fam == 'dg-dg', steps=rng.choice([2, 3]))
    if not impl:
        # mild explicit drag
        cfg['dragc'] = {'none': '0', 'quadratic': rng.choice(['0', '1/1000', '1/400']), 'rough': rng.choice(['1/100', '1/200'])}[drag]
    if not impl and ti == 'leapfrog':
        # the explicit leap-frog corrector is only weakly stable for friction: small steps, weak friction
        cfg.update(dt=rng.choice(['10', '15']), dragc=rng.choice(['1/500', '1/1000']), steps=2)
        cfg['nu'] = [s(Fraction(x)/20) for x in cfg['nu']]
        cfg['mu'] = [s(Fraction(x)/20) for x in cfg['mu']]
    if long:
        # constant forces: budget of the total momentum over many steps
        cfg.update(f='0', lin='0', steps=14, tau=['1/2', '0', '-1/4', '0'], s3=['0']*4, s2=['1/9000', '0', '0', '0'])
        if rng.random() < 0.5 and drag != 'rough':
            cfg.update(s3=['1/8000', '0', '-1/9000', '0'])
        if drag == 'quadratic':
            cfg['dragc'] = '0'
        if drag == 'rough':
            cfg.update(tau=['0']*4, steps=6)
        if impl:
            cfg.update(tau=['1/2', '0', '-1/4', '0'])
    return cfg


def leapfrog_finding():
    """steady 3D momentum source with the leap-frog integrator: known finding"""
    import random
    cfg = one(random.Random(1), QUICK[2], 1, True)
    nodes = 6
    cfg.update(s3=['1/8000', '0', '-1/9000', '0'], q=['1']*nodes, ux=['0']*nodes, uy=['0']*nodes, tau=['0']*4, s2=['0']*4, steps=16)
    return {'cfg': cfg, 'group': 'col-lf-impl', 'setup': 60, 'finding': 'leapfrog-explicit-force'}


def scenarios(rng, n, groups=QUICK):
    out = []
    for k in range(n):
        g = groups[k % len(groups)]
        rnd = k//len(groups)
        long = rnd % 5 == 1
        out.append({'cfg': one(rng, g, k, long), 'group': 'col-' + g[0], 'setup': 60})
    return out
