"""wetting and drying"""
import random
import gen_ledger as g
import gen_uniformflow as gu
import vf

FOCUS = ('depth_positive', 'volume_budget', 'mass_budget', 'uniform_tracer', 'tracer_at_rest', 'rest')


def run(chk):
    chk.model('LedgerMC', workers=4)
    if chk.thorough:
        chk.model('LedgerMC', cfg='LedgerMC_deep.cfg', workers=8)
    rng = random.Random(14 + 100*vf.SEED)
    if chk.thorough:
        sc = g.scenarios(rng, 400, g.WD, ('flow', 'rest'))
    else:
        sc = g.scenarios(rng, 48, g.WD, ('flow', 'rest'))
    chk.validate('LedgerTrace', chk.drive('ledger', sc, timeout=800), focus=FOCUS)
    # the depth itself: uniform flow on land and in water of any depth
    groups = [x for x in gu.QUICK + gu.MORE if x['wd'] != 'none' and (chk.thorough or x['name'] != 'ppp-wd')]
    sc = gu.scenarios(rng, 120 if chk.thorough else 16, groups)
    chk.validate('UniformFlowTrace', chk.drive('uniformflow', sc, timeout=800))
