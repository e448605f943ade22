"""rest and constancy"""
import random
import gen_ledger as g
import vf

FOCUS = ('uniform_tracer', 'tracer_at_rest', 'rest', 'bad_scenario')


def run(chk):
    chk.model('LedgerMC', workers=4)
    if chk.thorough:
        chk.model('LedgerMC', cfg='LedgerMC_deep.cfg', workers=8)
    rng = random.Random(13 + 100*vf.SEED)
    if chk.thorough:
        sc = g.scenarios(rng, 400, g.QUICK + g.MORE, ('rest', 'flow', 'rest'))
    else:
        sc = g.scenarios(rng, 48, g.named('cn', 'cn-rt', 'be-quad', 'ssp', 'lin', 'tronly'), ('rest', 'flow', 'rest'))
    chk.validate('LedgerTrace', chk.drive('ledger', sc, timeout=800), focus=FOCUS)
