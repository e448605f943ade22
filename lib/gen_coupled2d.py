"""Scenarios for Coupled2D.tla."""
SWE = ['SSPRK33', 'ForwardEuler', 'BackwardEuler', 'CrankNicolson', 'DIRK22', 'DIRK33', 'SSPIMEX', 'PressureProjectionPicard']
TR = ['SSPRK33', 'ForwardEuler', 'BackwardEuler', 'CrankNicolson', 'DIRK22', 'DIRK33']
# several Picard iterations need an integrator with lagged terms
NH_STAGES = ['DIRK22', 'DIRK33', 'SSPRK33']
NAMES = ['tracer_2d', 'a_2d', 'b_2d', 'salinity_2d', 'zz_2d', 'dye_2d']


def systems(rng, mixed=True):
    names = NAMES[:]
    rng.shuffle(names)
    res = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = 2 if mixed and rng.random() < 0.35 else 1
        lab = [names.pop() for _ in range(k)]
        res.append({'name': ','.join(lab), 'labels': lab})
    return res


def scenario(rng, kind):
    c = {'systems': [], 'p': 1, 'lim': rng.random() < 0.7, 'deg': rng.choice([0, 1, 1, 1]), 'sed': False, 'exner': False,
         'tracerOnly': False, 'nh': False, 'upd': True, 'steps': rng.randint(1, 3),
         't0': rng.choice(['0', '0', '100', '7/2', '1/2']), 'dt': rng.choice(['1/2', '1', '4', '60', '3/4']),
         'elev0': rng.choice(['0', '1/4', '-1/2', '2'])}
    ty = {'swe': rng.choice(SWE), 'tracer': rng.choice(TR), 'sediment': rng.choice(TR), 'exner': rng.choice(TR),
          'fs': rng.choice(TR)}
    if kind == 'nh':
        c['nh'] = True
        c['upd'] = rng.random() < 0.75
        c['lim'] = False
        ty['swe'] = rng.choice([x for x in SWE if x != 'PressureProjectionPicard'])
        # a multi-stage free surface scheme has to be that of the shallow water equations
        ty['fs'] = rng.choice(['BackwardEuler', 'CrankNicolson', 'ForwardEuler'])
        if ty['swe'] in NH_STAGES and rng.random() < 0.6:
            ty['fs'] = ty['swe']
        c['deg'] = 1
    else:
        mixed = rng.random() < 0.4
        if 'tracer' in kind:
            c['systems'] = systems(rng, mixed)
            if any(len(y['labels']) > 1 for y in c['systems']):
                c['lim'] = False
            if rng.random() < 0.4:
                c['p'] = rng.randint(2, 4)
                ty['tracer'] = 'CrankNicolson'
            c['tracerOnly'] = kind == 'tracer' and rng.random() < 0.3
        c['sed'] = 'sed' in kind
        c['exner'] = 'exner' in kind
        if c['sed'] or c['exner']:
            c['deg'] = 1
    c['types'] = ty
    c['swe'], c['fst'] = ty['swe'], ty['fs']
    return {'cfg': c}


KINDS = ['tracer', 'tracer', 'nh', 'sed', 'exner', 'sed+exner', 'tracer+sed', 'tracer+sed+exner', 'nh', 'tracer+exner', 'tracer']


def scenarios(rng, n):
    return [scenario(rng, KINDS[i % len(KINDS)]) for i in range(n)]
