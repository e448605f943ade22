"""Scenarios for drivers/diag3d.py"""
from fractions import Fraction

#       name      family   stretch ale   open   eos      salt  temp   quad   smag  turb
QUICK = [('pp', 'dg-dg', '1', True, True, 'linear', True, True, False, True, True),
         ('eos', 'dg-dg', '2', True, False, 'full', True, True, False, False, True),
         ('rt', 'rt-dg', '1', True, True, 'linear', True, False, False, False, False),
         ('quad', 'dg-dg', '1', True, True, 'linear', True, True, True, False, False)]
MORE = [('bdm', 'bdm-dg', '3/2', True, True, 'full', False, True, False, True, False),
        ('noale', 'dg-dg', '3/2', False, True, 'linear', False, True, False, True, True),
        ('smooth', 'dg-dg', '1/2', True, False, 'linear', True, True, False, True, True)]


def r(x, d=64):
    return str(Fraction(round(x*d), d))


def one(rng, g):
    name, fam, stretch, ale, opn, eos, salt, temp, quad, smag, turb = g
    # fixed per group: mesh, bathymetry, constants of the solver
    import random
    fix = random.Random(name)
    nx, ny, n = (2, 2, 3) if fam == 'dg-dg' else (2, 1, 2)
    if name == 'eos':
        nx, ny, n = 3, 1, 4
    lx, ly = 600, 300
    nv = (nx + 1)*(ny + 1)
    hdiv = fam != 'dg-dg'
    h = ['20']*nv if hdiv or name in ('quad', 'noale') else [r(fix.uniform(8, 24), 4) for _ in range(nv)]
    lin = dict(rho_ref='1000', s_ref='35', th_ref='15', alpha='1/5', beta='77/100')
    if name != 'rt':
        lin = dict(rho_ref='1003', s_ref='30', th_ref='10', alpha='1/4', beta='3/4')

    def aff(a, b=None, z=False):
        b = a/500 if b is None else b
        return [r(rng.uniform(-a, a), 16), r(rng.uniform(-b, b), 4096), r(rng.uniform(-b, b), 4096),
                r(rng.uniform(-b, b), 4096) if z else '0']

    def eta(kind):
        if kind == 'level':
            return [r(rng.uniform(-2, 3), 8)]*nv
        a, b, c = rng.uniform(-1, 1), rng.uniform(-1, 1)/600, rng.uniform(-1, 1)/300
        if kind == 'plane':
            a, b, c = Fraction(r(a, 8)), Fraction(r(b, 2**12)), Fraction(r(c, 2**12))
            return [str(a + b*Fraction(lx*i, nx) + c*Fraction(ly*j, ny)) for j in range(ny + 1) for i in range(nx + 1)]
        return [r(rng.uniform(-2, 2), 8) for _ in range(nv)]

    states = []
    for k in range(rng.choice([2, 3])):
        kinds = ['any', 'any', 'plane'] if not hdiv else []
        if len(set(h)) == 1:
            kinds += ['level', 'level']
        if quad:
            kinds = ['level']
        ek = rng.choice(kinds)
        if not ale:
            ek = 'level'
        st = dict(eta=eta(ek), eta1=eta('any' if not hdiv else 'level'), bu=rng.choice(['0', '0', '1/2', '-3']), bd=rng.choice(['0', '0', '1', '-5/4']),
                  c=rng.choice(['1', '1/2', '2/3']), uscale=rng.choice(['1/2', '2']), pgk='none')
        u2 = aff(0.8)[:3] + aff(0.8)[:3]
        if rng.random() < 0.2:
            u2 = ['0']*6
        st['u2'] = u2
        if rng.random() < 0.55 and not (hdiv and rng.random() < 0.5):
            st['u3'] = [['lin', aff(0.5)], ['lin', aff(0.5)]]
            if rng.random() < 0.3:
                st['u3'] = [['lin', ['0']*4], ['lin', [r(rng.uniform(-1, 1), 16), '0', '0', '0']]]
        elif hdiv:
            st['u3'] = [['lin', aff(0.5, z=True)], ['lin', aff(0.5, z=True)]]
        else:
            st['u3'] = [['rand', []], ['rand', []]]
        st['salt'] = ['rand', []]
        st['temp'] = ['rand', []]
        if eos == 'linear' and (quad or rng.random() < 0.6):
            if ek == 'level' and len(set(h)) == 1:
                st['pgk'] = 'flat'
                st['salt'] = ['lin', [r(rng.uniform(20, 30), 8)] + aff(1, z=True)[1:]]
                st['temp'] = ['lin', [r(rng.uniform(5, 15), 8)] + aff(1, z=True)[1:]]
            elif ek in ('level', 'plane'):
                st['pgk'] = 'uniform'
                st['salt'] = ['lin', [r(rng.uniform(20, 30), 8), '0', '0', '0']]
                st['temp'] = ['lin', [r(rng.uniform(5, 15), 8), '0', '0', '0']]
        if eos == 'linear' and quad and st['salt'][0] == 'rand':
            st['salt'] = ['lin', [r(rng.uniform(20, 30), 8)] + aff(1, z=True)[1:]]
            st['temp'] = ['lin', [r(rng.uniform(5, 15), 8)] + aff(1, z=True)[1:]]
        states.append(st)
    return dict(nx=nx, ny=ny, lx=str(lx), ly=str(ly), n=n, diag=fix.choice(['left', 'right']), stretch=stretch, h=h, ale=ale, open=opn,
                dt=fix.choice(['20', '400']) if smag else '20', cs='3/10', eos=eos, lin=lin, salt=salt, temp=temp, s0='32', t0='12',
                quad=quad, smag=smag, turb=turb, pp=dict(max_viscosity='1/20', alpha='10', exponent='2') if name != 'eos' else
                dict(max_viscosity='1/100', alpha='5', exponent='3/2'), family=fam, seed=rng.randrange(10**6), states=states)


def scenarios(rng, n, groups=QUICK):
    return [{'cfg': one(rng, groups[k % len(groups)]), 'group': 'd3-' + groups[k % len(groups)][0], 'setup': 60} for k in range(n)]
