"""Slope limiter"""
import random
import gen_slopelimiter as g
import vf


def run(chk):
    chk.model('SlopeLimiterMC', workers=4)
    if chk.thorough:
        chk.model('SlopeLimiterMC', cfg='SlopeLimiterMC_deep.cfg', workers=8)
    sc = g.scenarios(random.Random(11 + 100*vf.SEED), 1600 if chk.thorough else 240)
    chk.validate('SlopeLimiterTrace', chk.drive('slopelimiter', sc))
    chk.assumptions += ['Meshes of up to 16 cells; the topology is taken from Firedrake.']
