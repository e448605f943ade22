"""mass of sediment in suspension and in the bed"""
import random
import gen_sediment as g
import vf


def run(chk):
    chk.model('SedimentMC', workers=4)
    rng = random.Random(30 + 100*vf.SEED)
    pick = lambda gs: [x for x in gs if x['mode'] in ('bed', 'budget', 'slide')]
    if chk.thorough:
        chk.model('SedimentMC', cfg='SedimentMC_deep.cfg', workers=8)
        sc = g.scenarios(rng, 600, pick(g.QUICK + g.MORE))
    else:
        sc = g.scenarios(rng, 72, pick(g.QUICK) + [x for x in g.MORE if x['name'] == 'bud-rest'])
    sc.append(g.slide_finding())
    chk.validate('SedimentTrace', chk.drive('sediment', sc, timeout=850))
    chk.assumptions += ['Budget of suspended plus bed mass: relative tolerance of 2 percent of the exchanged mass (quadrature at the erosion threshold, '
                        'depth of the old time level in the Exner equation).']
