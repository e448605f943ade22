"""Scenarios for Diagnostics.tla."""
from fractions import Fraction as F

MESH2 = [{'nx': 3, 'ny': 2, 'Lx': '30', 'Ly': '20', 'quad': False},
         {'nx': 2, 'ny': 3, 'Lx': '20', 'Ly': '50', 'quad': True},
         {'nx': 2, 'ny': 2, 'Lx': '40', 'Ly': '20', 'quad': False, 'family': 'rt-dg'}]
MESH3 = [{'nx': 2, 'ny': 2, 'Lx': '20', 'Ly': '40', 'quad': False, 'layers': 3},
         {'nx': 2, 'ny': 1, 'Lx': '20', 'Ly': '10', 'quad': True, 'layers': 2}]


def r(rng, lo=-40, hi=40, d=16):
    return str(F(rng.randint(lo, hi), d))


def scenario(rng, k):
    dim = 3 if k % 3 == 2 else 2
    i = rng.randrange(len(MESH3 if dim == 3 else MESH2))
    m = (MESH3 if dim == 3 else MESH2)[i]
    Lx, Ly = F(m['Lx']), F(m['Ly'])
    dt = rng.choice(['1', '1/2', '25/2'])

    def pos(inner=True):
        return [str(Lx*F(rng.randint(3, 97), 100)), str(Ly*F(rng.randint(3, 97), 100))]

    def aff(a, b):
        """value at the corners between a and b"""
        mid, d = F(rng.randint(a*3 + b, a + b*3), 4), F(b - a, 8)
        gx, gy = d*F(rng.randint(-8, 8), 8)/Lx, d*F(rng.randint(-8, 8), 8)/Ly
        return [str(mid - gx*Lx/2 - gy*Ly/2), str(gx), str(gy)]
    ev = []
    names2 = ['elev_2d', 'tr1_2d', 'uv_2d']

    def field(name):
        if name == 'elev_2d':
            v = aff(-2, 3)
        elif name == 'bathymetry_2d':
            v = aff(10, 20)
        elif name == 'uv_2d':
            v = [aff(-3, 3), aff(-3, 3)]
        elif name == 'tr2_2d':
            v = [r(rng) for q in range(100)]
        elif name in ('salt_3d', 'temp_3d'):
            v = aff(5, 30) + [r(rng, -8, 8)]
        elif name == 'scalar':
            v = r(rng)
        elif name == 'series':
            v = [[r(rng) for q in range(sdim)] for w in range(nser)]
        else:
            v = aff(2, 9)
        ev.append({'ev': 'field', 'name': name, 'v': v})
    sdim, nser = rng.randint(1, 3), rng.randint(1, 3)
    order = ['bathymetry_2d', 'elev_2d', 'scalar', 'series'] + (['salt_3d', 'temp_3d'] if dim == 3 else ['uv_2d', 'tr1_2d', 'tr2_2d'])
    for n in order:
        field(n)
    short = {'elev_2d': 'elev', 'tr1_2d': 'tr1', 'uv_2d': 'uv', 'salt_3d': 'salt', 'temp_3d': 'temp'}
    kinds = ['volume2d', 'mass2d', 'mass2d', 'consmass2d', 'overshoot', 'overshoot', 'detectors', 'detectors', 'timeseries2d',
             'accumulator', 'custom', 'custom'] if dim == 2 else \
            ['volume3d', 'mass3d', 'overshoot', 'timeseries3d', 'profile', 'transect', 'transect']
    cbs = {}

    def new(cid, kind, append=False, par=None):
        e = {'ev': 'new', 'cb': cid, 'kind': kind, 'lo': 'none', 'hi': 'none', 'append': append, 'file': 'none', 'par': {},
             'names': [], 'single': False, 'log': rng.random() < 0.3}
        if kind not in ('profile', 'transect'):
            if rng.random() < 0.25:
                e['lo'] = rng.choice(['0', '2', '3'])
            if rng.random() < 0.25:
                e['hi'] = rng.choice(['0', '3', '4', '5'])
        h5 = rng.random() < 0.85
        p = {}
        if kind in ('volume2d', 'volume3d'):
            e['file'], e['names'] = 'diagnostic_%s.hdf5' % kind, ['integral', 'relative_difference']
        elif kind in ('mass2d', 'consmass2d', 'mass3d'):
            p['field'] = rng.choice(['salt_3d', 'temp_3d']) if dim == 3 else 'tr1_2d'
            e['file'], e['names'] = 'diagnostic_%s_mass.hdf5' % p['field'], ['integral', 'relative_difference']
        elif kind == 'overshoot':
            p['field'] = rng.choice(['salt_3d', 'temp_3d']) if dim == 3 else rng.choice(['tr1_2d', 'tr2_2d'])
            p['nodal'] = p['field'] == 'tr2_2d'
            e['file'] = 'diagnostic_%s_overshoot.hdf5' % p['field']
            e['names'] = ['min_value', 'max_value', 'undershoot', 'overshoot']
        elif kind == 'detectors':
            nd = rng.choice([1, 2, 3, 4, 10, 11])
            p = {'xy': [pos() for q in range(nd)], 'fields': rng.sample(names2, rng.randint(1, 3)), 'name': 'det%d' % cid}
            p['dnames'] = ['g%d' % q for q in rng.sample(range(nd), nd)] if rng.random() < 0.4 else []
            e['file'] = 'diagnostic_%s.hdf5' % p['name']
            w = len(str(nd))
            e['names'] = p['dnames'] or ['detector%0*d' % (w, q) for q in range(nd)]
        elif kind in ('timeseries2d', 'timeseries3d'):
            x, y = pos()
            p = {'x': x, 'y': y, 'name': 'st%d' % cid, 'z': str(F(rng.randint(-400, -60), 20)),
                 'fields': rng.sample(['elev_2d', 'tr1_2d'], rng.randint(1, 2)) if dim == 2 else
                 rng.sample(['salt_3d', 'temp_3d'], rng.randint(1, 2))}
            h5 = True
            e['names'] = [short[f] for f in p['fields']]
            e['file'] = 'diagnostic_timeseries_%s_%s.hdf5' % (p['name'], '-'.join(e['names']))
        elif kind in ('profile', 'transect'):
            n = 1 if kind == 'profile' else rng.randint(1, 4)
            q = [pos() for w in range(n)]
            p = {'x': [a[0] for a in q], 'y': [a[1] for a in q], 'name': 'pr%d' % cid, 'n': rng.randint(2, 7),
                 'zmin': 'none', 'zmax': 'none', 'fields': rng.sample(['salt_3d', 'temp_3d'], rng.randint(1, 2))}
            if kind == 'transect' and rng.random() < 0.4:
                p['zmin'] = str(F(rng.randint(-25, -8)))
            if kind == 'transect' and rng.random() < 0.4:
                p['zmax'] = str(F(rng.randint(-5, 4)))
            h5 = True
            e['names'] = ['z_coord'] + [short[f] for f in p['fields']]
            e['file'] = 'diagnostic_%s_%s_%s.hdf5' % ('vertprofile' if kind == 'profile' else 'transect', p['name'],
                                                      '-'.join(e['names'][1:]))
        elif kind == 'accumulator':
            h5 = False
        else:
            p = {'name': 'my series %d' % cid, 'dim': sdim}
            e['file'], e['names'] = 'diagnostic_my_series_%d.hdf5' % cid, ['w%d' % q for q in range(nser)]
        if kind in ('volume2d', 'custom', 'detectors', 'overshoot') and rng.random() < 0.15:
            e['single'] = True
        if not h5:
            e['file'] = 'none'
        e['par'] = p
        if par:
            for q in ('par', 'file', 'names', 'single'):
                e[q] = par[q]
        if any(v['file'] == e['file'] != 'none' for a, v in cbs.items() if a != cid):
            return
        cbs[cid] = e
        ev.append(dict(e))
    for q in range(rng.randint(1, 4)):
        new(q, rng.choice(kinds))
    t = F(0)
    cnt = {}
    for q in range(rng.randint(6, 12)):
        x = rng.random()
        if x < 0.2:
            n = rng.choice(order)
            if dim == 3 and n in ('elev_2d', 'bathymetry_2d'):
                # all fields are set on the moved mesh
                for w in order[1:2] + order[4:]:
                    field(w)
            else:
                field(n)
            field('series')
        elif x < 0.3:
            # restart: a new object for the same series
            cid = rng.choice(sorted(cbs))
            if cbs[cid]['file'] != 'none':
                new(cid, cbs[cid]['kind'], append=rng.random() < 0.75, par=cbs[cid])
        else:
            cid = rng.choice(sorted(cbs))
            idx = rng.choice([-1, -1, -1, 0, 1, 2, 7])
            ev.append({'ev': 'eval', 'cb': cid, 't': str(t), 'idx': idx, 'manager': rng.random() < 0.3,
                       'acc': cbs[cid]['kind'] == 'accumulator'})
            t += rng.choice([F(dt), F(1, 2), F(1)])
            field('scalar')
            if rng.random() < 0.5:
                field('series')
    if not any(e['ev'] == 'eval' for e in ev):
        ev.append({'ev': 'eval', 'cb': 0, 't': str(t), 'idx': -1, 'manager': False, 'acc': cbs[0]['kind'] == 'accumulator'})
    return {'cfg': {'Lx': m['Lx'], 'Ly': m['Ly'], 'dt': dt}, 'dim': dim, 'mesh': m, 'date': rng.random() < 0.3,
            'events': ev, 'group': '%d_%d_%d' % (dim, i, k % 6), 'setup': 4}


def scenarios(rng, n):
    return [scenario(rng, k) for k in range(n)]
