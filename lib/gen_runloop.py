"""Scenarios for the time loop (RunLoop.tla)."""
import vf
from fractions import Fraction as F

BASE_ISO = '2020-02-28T12:00:00+00:00'
DTS = ['1', '5', '0.1', '0.3', '1/3', '7', '2.5', '60', '0.05', '3600', '12.4']
NAMES = ['a', 'b', 'zeta', 'c1', 'probe']


def fs(x):
    return str(F(x))


def scenarios(rng, n, modes, restart=0.3, windows=0.5):
    res = []
    for k in range(n):
        mode = modes[k % len(modes)]
        # the 3D solver adjusts its step to the export interval: exact quotients only
        dt = F(rng.choice(DTS if mode == '2d' else ['1', '5', '2.5', '60', '0.25', '3600', '12.5']))
        r = rng.random()
        if r < 0.6:
            texp = dt*rng.randint(1, 4)
        elif r < 0.9:
            texp = dt*F(rng.randint(5, 17), 4)     # not a multiple of the step
        else:
            texp = dt*(F(rng.randint(2, 4), 5) if mode == '2d' else F(1, 2))      # shorter than a step
        dtreq = dt
        if mode == '3d':
            dt = texp/(-((-texp)//dt))
        nst = rng.choice([0, 1, 2, 3, 5, 7, 9])
        tend = dt*nst
        if rng.random() < 0.4:
            tend += dt*F(rng.randint(1, 9), 10)
        if tend == 0:
            tend = F(5, 10**6)       # within the tolerance of the clock: no step
        rs = {'on': False}
        dates = rng.choice(['none', 'none', 'end', 'both'])
        if rng.random() < restart and texp >= dt:
            aligned = (texp/dt).denominator == 1
            nexp = rng.randint(1, 3)
            tend1 = texp*nexp + (dt if not aligned else 0)
            i = rng.randint(0, nexp)
            t1 = dt*(-((-i*texp)//dt))
            same = rng.random() < 0.5
            tover, iter_, iexp = 'none', -1, -1
            q = rng.random()
            if q < 0.2:
                tover, iter_, iexp = '0', 0, 0
            elif q < 0.3:
                iexp = i
            elif q < 0.4:
                tover = fs(t1)
            elif q < 0.5:
                iter_ = 100
            t0 = F(tover) if tover != 'none' else t1
            tend = t0 + dt*rng.choice([1, 2, 4, 5])
            if rng.random() < 0.3:
                tend += dt/2
            rs = {'on': True, 'i': i, 't': tover, 'iter': iter_, 'iexp': iexp, 'same': same,
                  'texp1': fs(texp), 'tend1': fs(tend1)}
            if dates == 'none' and tover == 'none' and rng.random() < 0.5:
                dates = 'stored'
        else:
            t0 = F(0)
        cbs = []
        for name in rng.sample(NAMES, rng.choice([0, 1, 2, 3])):
            lo = hi = 'none'
            if rng.random() < windows:
                # window limits on, between and around steps; 0 is a legal limit
                a = t0 + dt*F(rng.randint(-1, 2*max(nst, 2)), 2)
                b = a + dt*F(rng.randint(0, 6), 2)
                eps = F(1, 1000)*dt
                if dt.denominator in (1, 2, 4, 8) and rng.random() < 0.6:
                    eps = F(0)      # exact in floating point: the limits are inclusive
                w = rng.random()
                if w < 0.6:
                    lo = fs(a - eps) if a > 0 else fs(a)
                if w > 0.35:
                    hi = fs(b + eps) if b > 0 else fs(b)
            cbs.append({'name': name, 'when': rng.choice(['timestep', 'export']), 'lo': lo, 'hi': hi})
        fields = rng.choice([(['elev_2d', 'uv_2d'], ['elev_2d']), (['elev_2d', 'uv_2d'], []),
                             (['uv_2d', 'elev_2d'], ['uv_2d', 'elev_2d']), ([], ['elev_2d']), ([], [])])
        noexp = rng.random() < 0.1
        hf, vf = fields
        if rs['on']:
            if mode == '3d':
                hf = ['elev_2d', 'uv_2d', 'uv_3d']
            else:
                hf = ['elev_2d', 'uv_2d']
            noexp = False
        if noexp:
            hf, vf = [], []
        date = 'none'
        if dates != 'none' and 'elev_2d' in hf:
            date = BASE_ISO
        cfg = {'mode': mode, 't0': '0', 'dtreq': fs(dtreq), 'texp': fs(texp), 'tend': fs(tend), 'it0': 0, 'ie0': 0,
               'fresh': True, 'fidx': 0, 'old': [], 'hf': hf, 'vf': vf, 'cbs': cbs, 'func': rng.random() < 0.5,
               'gen': mode == '2d' and rng.random() < 0.4, 'date': date, 'ver0': 0, 'rs': rs, 'dates': dates,
               'noexp': noexp}
        res.append({'cfg': cfg})
    return res


def run(chk, focus, rng):
    chk.model('RunLoopMC', workers=4)
    if chk.thorough:
        chk.model('RunLoopMC', cfg='RunLoopMC_deep.cfg', workers=8)
    n2, n3 = (700, 250) if chk.thorough else (110, 40)
    sc = scenarios(rng, n2, ['2d']) + scenarios(rng, n3, ['3d'])
    traces = chk.drive('runloop', sc)
    chk.validate('RunLoopTrace', traces, focus=focus)
    chk.assumptions += ['The time stepper is replaced by one that adds 1 to the fields, so that only the loop, '
                        'the exporters and the callbacks of the solver are observed.']
