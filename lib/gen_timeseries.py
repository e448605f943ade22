"""Scenarios for TimeSeries.tla."""
from fractions import Fraction as F

DAY = 86400


def scenario(rng):
    daily = rng.random() < 0.25
    init = 951782400 + rng.randint(0, 400)*DAY + rng.choice([0, 0, 3600*7, 1800])    # from 2000-02-29
    tz = rng.choice([0, 0, -8, 2, 5])
    nvar = rng.choice([1, 1, 2, 3])
    shape = rng.choice([[], [], [], [3], [2, 3]])
    tdim = rng.randint(0, len(shape))
    tname = rng.choice(['time', 'time', 'ocean_time'])

    def val():
        return str(F(rng.randint(-400, 400), 8))
    files = []
    ctz, hour = 0, 12
    if daily:
        ctz = rng.choice([0, 0, -6, 3])
        hour = rng.choice([12, 0, 6, 23])
        day = init//DAY - rng.randint(0, 4)
        n = rng.randint(3, 7)
        for k in range(n):
            base = day*DAY + 3600*hour - 3600*ctz
            files.append({'base': str(base), 'unit': '1', 'stamps': ['0'], 'data': [[val() for v in range(nvar)]],
                          'tz': 0, 'calendar': 'standard', 'name': str(k)})
            day += rng.choice([1, 1, 1, 2, 30])
    else:
        unit = rng.choice([1, 60, 3600, DAY])
        t = F(init) + rng.randint(-4, 1)*unit
        n = rng.randint(1, 5)
        order = list(range(n))
        rng.shuffle(order)
        for k in range(n):
            m = rng.choice([1, 1, 2, 3, 5, 8])
            if n == 1:
                m = max(m, 2)
            st = []
            for i in range(m):
                st.append(t)
                t += unit*rng.choice([F(1), F(1), F(1, 2), F(1, 4), F(5, 2)])
            u = unit if rng.random() < 0.7 else rng.choice([1, 60, 3600])
            base = int(st[0]) - rng.choice([0, 0, DAY, 3600, 10*DAY])
            base -= base % 60
            ftz = rng.choice([0, 0, -6, 3]) if tz or rng.random() < 0.5 else 0
            files.append({'base': str(base), 'unit': str(u), 'stamps': [str((x - base)/u) for x in st],
                          'data': [[val() for v in range(nvar)] for i in range(m)], 'tz': ftz,
                          'calendar': rng.choice(['gregorian', 'standard', 'proleptic_gregorian']),
                          'name': '%02d' % order[k]})
        rng.shuffle(files)
    stamps = sorted(F(f['base']) + F(f['unit'])*F(x) - init for f in files for x in f['stamps'])
    q = []

    def time():
        r = rng.random()
        if r < 0.3:
            return rng.choice(stamps)
        k = rng.randrange(len(stamps))
        if r < 0.4:
            return stamps[0] - rng.choice([F(1, 100), F(50), F(100000)])
        if r < 0.5:
            return stamps[-1] + rng.choice([F(1, 100), F(50), F(100000)])
        if k == len(stamps) - 1:
            k = max(0, k - 1)
        if len(stamps) == 1:
            return stamps[0]
        a = F(rng.choice([1, 50, 99, rng.randint(1, 99)]), 100)
        x = stamps[k]*(1 - a) + stamps[k + 1]*a
        return F(round(x*1000), 1000)

    for _ in range(rng.randint(12, 30)):
        r = rng.random()
        if r < 0.45:
            q.append(['interp', str(time())])
        elif r < 0.8:
            q.append(['find', str(time()), rng.random() < 0.5])
        elif r < 0.85:
            q.append(['todate', str(time())])
        elif r < 0.9:
            q.append(['parser', rng.randint(1, len(files))])
        else:
            k = rng.randint(1, len(files))
            q.append(['stamp', str(time()), rng.random() < 0.5, k, rng.random() < 0.5])
    if rng.random() < 0.5:
        q.sort(key=lambda e: (F(e[1]) if e[0] != 'parser' else 0))      # forward in time like a simulation
    scal = [str(F(rng.randint(-20, 20), 4)) for v in range(nvar)] if rng.random() < 0.4 and not daily else []
    cfg = {'init': str(init), 'tz': tz, 'files': files, 'scalars': scal, 'daily': daily, 'shape': shape, 'tdim': tdim,
           'tname': tname, 'ctz': ctz, 'hour': hour, 'tree': not daily and rng.random() < 0.4}
    return {'cfg': cfg, 'queries': q}


def scenarios(rng, n):
    return [scenario(rng) for k in range(n)]
