"""Scenarios for GridInterp.tla."""
from fractions import Fraction as F


def axis(rng, n):
    a = [F(rng.randint(-40, 40), 4)]
    for k in range(n - 1):
        a.append(a[-1] + rng.choice([F(1), F(1), F(1, 2), F(2), F(3, 4), F(3)]))
    return a


def val(rng):
    return str(F(rng.randint(-800, 800), 16))


def inner(rng, a):
    """a coordinate within the axis, or outside"""
    k = rng.randrange(len(a) - 1)
    r = rng.random()
    if r < 0.75:
        return a[k] + (a[k+1] - a[k])*F(rng.randint(3, 97), 100)
    if r < 0.85 and len(a) > 2:
        return a[rng.randint(1, len(a) - 2)]
    if r < 0.9:
        return rng.choice([a[0], a[-1]])        # the boundary belongs to the grid
    if r < 0.95:
        return a[0] - F(rng.randint(1, 700), 101)
    return a[-1] + F(rng.randint(1, 700), 101)


def grid(rng):
    dim = rng.choice([2, 2, 2, 3])
    ax = [axis(rng, rng.randint(2, 6 if dim == 2 else 4)) for d in range(dim)]
    norm = dim == 3 and rng.random() < 0.5
    n = rng.randint(2 if norm else 1, 12)
    tgt = [[inner(rng, a) for a in ax] for k in range(n)]
    if norm:
        for d in range(3):
            tgt[0][d] = ax[d][0] + (ax[d][1] - ax[d][0])/7
            tgt[1][d] = ax[d][-1] - (ax[d][-1] - ax[d][-2])*F(2, 7)
    if dim == 2:
        data = [[[val(rng) for y in ax[1]] for x in ax[0]] for k in range(rng.randint(1, 3))]
    else:
        data = [[val(rng) for k in range(4)] for k in range(rng.randint(1, 3))]
    cfg = {'dim': dim, 'ax': [[str(x) for x in a] for a in ax], 'nearest': rng.random() < 0.4,
           'fill': rng.choice(['nan', 'nan', '-999', '0']), 'tgt': [[str(x) for x in p] for p in tgt], 'norm': norm}
    return {'kind': 'grid', 'cfg': cfg, 'data': data, 'shuffle': rng.randint(0, 999), 'explicit': rng.random() < 0.3}


def netcdf(rng):
    outside = rng.random() < 0.35
    sx, sy = F(rng.randint(3, 12)), F(rng.randint(3, 12))
    x0, y0 = F(rng.randint(-60, 60)), F(rng.randint(-60, 60))

    def ax(o, s):
        """axis that covers [o, o+s], or not"""
        a = [o - F(rng.randint(1, 900), 271)]
        if outside and rng.random() < 0.5:
            a = [o + s*F(rng.randint(10, 40), 97)]
        stop = o + s*F(rng.randint(50, 90), 97) if outside and rng.random() < 0.5 else o + s + F(1, 7)
        while len(a) < 2 or (a[-1] < stop and len(a) < 9):
            a.append(a[-1] + s*F(rng.choice([1, 2, 3]), 7) + F(1, 37))
        if not outside and a[-1] < stop:
            a.append(stop)
        return a + [a[-1] + 1]*(rng.random() < 0.5)
    lon, lat = ax(x0, sx), ax(y0, sy)
    nvar, nt, nf = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2)
    data = [[[[[val(rng) for y in lat] for x in lon] for v in range(nvar)] for t in range(nt)] for f in range(nf)]
    order = ['lat', 'lon'] + list(range(nvar))
    rng.shuffle(order)
    attr = rng.choice(['standard_name', 'long_name', 'var_name'])
    names = {'latitude': rng.choice(['latitude', 'lat', 'Lat']), 'longitude': rng.choice(['longitude', 'lon', 'LON'])} \
        if attr == 'var_name' else {'latitude': 'yy', 'longitude': 'xx'}
    cfg = {'dim': 2, 'ax': [[str(x) for x in a] for a in (lon, lat)], 'nearest': outside and rng.random() < 0.4,
           'fill': rng.choice(['nan', '-999']), 'tgt': [], 'norm': False}
    q = [{'vars': rng.sample(range(nvar), rng.randint(1, nvar)), 'file': rng.randrange(nf), 'time': rng.randrange(nt),
          'wrap': rng.random() < 0.3} for k in range(rng.randint(2, 5))]
    return {'kind': 'nc', 'cfg': cfg, 'data': data, 'queries': q,
            'nc': {'lat_desc': rng.random() < 0.4, 'two_d': rng.random() < 0.4, 'names': names, 'attr': attr,
                   'order': order, 'cells': [rng.randint(1, 3), rng.randint(1, 3)], 'space': rng.choice([['CG', 1], ['DG', 1], ['CG', 2]]),
                   'map': [str(x) for x in (x0, sx, y0, sy)]}}


def names(rng):
    """variables that match in at most one way, so that the answer does not depend on their order"""
    kinds = rng.sample(['air_pressure', 'eastward_wind', 'latitude', 'sea level', 'zz', 'salt'], 4)
    vs, look = [], []
    for k, w in enumerate(kinds):
        how = rng.choice(['standard_name', 'long_name', 'var_name', 'none'])
        v = {'name': 'q%d' % k}
        text = rng.choice([w, w.upper(), w.capitalize()])
        if how == 'var_name':
            v['name'] = text.replace(' ', '_')
        elif how != 'none':
            v[how] = text
            if rng.random() < 0.3:
                v['long_name' if how == 'standard_name' else 'standard_name'] = 'other %d' % k
        vs.append(v)
        a = [None, None, None]
        use = rng.choice(['standard_name', 'long_name', 'var_name', 'both'])
        for i, x in enumerate(['standard_name', 'long_name', 'var_name']):
            if use == x or use == 'both':
                a[i] = w.replace(' ', '_') if x == 'var_name' else w
                if rng.random() < 0.4:
                    a[i] = ['absent', a[i]]
        if a[0] is None and a[1] is None:
            a[0] = 'absent'
        hit = how != 'none' and (use == how or use == 'both')
        look.append({'args': a, 'want': v['name'] if hit else ''})
    rng.shuffle(vs)
    return {'kind': 'names', 'cfg': {'dim': 2, 'ax': [], 'nearest': False, 'fill': 'nan', 'tgt': [], 'norm': False},
            'vars': vs, 'lookups': look}


def scenarios(rng, n):
    return [grid(rng) if k % 8 < 5 else netcdf(rng) if k % 8 < 7 else names(rng) for k in range(n)]
