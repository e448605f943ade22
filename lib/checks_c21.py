"""numerical fluxes between elements, walls, drag"""
import random
import gen_fluxes as g
import vf

FOCUS = [q + '_' + w for q in ('eta', 'u', 'v', 'tracer') for w in ('inside', 'wall')]


def run(chk):
    chk.model('FluxesMC', workers=4)
    if chk.thorough:
        chk.model('FluxesMC', cfg='FluxesMC_deep.cfg', workers=8)
    rng = random.Random(21 + 100*vf.SEED)
    sc = g.scenarios(rng, 300, g.QUICK + g.MORE) if chk.thorough else g.scenarios(rng, 21, g.QUICK)
    chk.validate('FluxesTrace', chk.drive('fluxes', sc, timeout=850), focus=FOCUS)
    chk.assumptions += ['Degrees 0 and 1 of the discontinuous family; states that keep the water depth positive.']
