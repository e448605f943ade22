"""sediment closures and time steps in uniform flow"""
import random
import gen_sediment as g
import vf


def run(chk):
    chk.model('SedimentMC', workers=4)
    if chk.thorough:
        chk.model('SedimentMC', cfg='SedimentMC_deep.cfg', workers=8)
    rng = random.Random(24 + 100*vf.SEED)
    pick = lambda gs: [x for x in gs if x['mode'] in ('model', 'factor', 'run')]
    sc = g.scenarios(rng, 600, pick(g.QUICK + g.MORE)) if chk.thorough else g.scenarios(rng, 64, pick(g.QUICK))
    chk.validate('SedimentTrace', chk.drive('sediment', sc, timeout=850))
    chk.assumptions += ['Horizontally uniform depth, velocity and bed slope; van Rijn / Meyer-Peter-Mueller sediment model (the only one in thetis).']
