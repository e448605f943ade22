"""Runge-Kutta and implicit-explicit schemes"""
import random
import gen_timeint as g
import vf


def run(chk):
    chk.model('TimeIntMC', workers=4)
    if chk.thorough:
        chk.model('TimeIntMC', cfg='TimeIntMC_deep.cfg', workers=8)
    sc = g.scenarios(random.Random(7 + 100*vf.SEED), g.RK_ALL, 60 if chk.thorough else 12)
    chk.validate('TimeIntTrace', chk.drive('timeint', sc))
    chk.assumptions += ['The integrated equations are decoupled scalar equations with linear, quadratic and source terms.']
