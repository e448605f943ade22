"""water and tracer budgets of closed basins"""
import random
import gen_ledger as g
import vf

FOCUS = ('volume_budget', 'mass_budget', 'bathymetry_changed')


def run(chk):
    chk.model('LedgerMC', workers=4)
    if chk.thorough:
        chk.model('LedgerMC', cfg='LedgerMC_deep.cfg', workers=8)
    rng = random.Random(12 + 100*vf.SEED)
    if chk.thorough:
        sc = g.scenarios(rng, 400, g.QUICK + g.MORE, ('flow', 'flow', 'rest'))
    else:
        sc = g.scenarios(rng, 48, g.named('cn', 'cn-rt', 'lin', 'ssp', 'tronly', 'tronly-cn'), ('flow', 'flow', 'rest'))
    chk.validate('LedgerTrace', chk.drive('ledger', sc, timeout=800), focus=FOCUS)
