"""coupled 2D time step"""
import random
import gen_coupled2d as g
import vf


def run(chk):
    chk.model('Coupled2DMC', workers=4)
    if chk.thorough:
        chk.model('Coupled2DMC', cfg='Coupled2DMC_deep.cfg', workers=8)
    sc = g.scenarios(random.Random(9 + 100*vf.SEED), 700 if chk.thorough else 88)
    chk.validate('Coupled2DTrace', chk.drive('coupled2d', sc))
    chk.assumptions += ['The component integrators, the limiter, the sediment model update and the pressure solver are replaced by '
                        'stand-ins that add known amounts; the integrators themselves are covered by C07, C08, the limiter by C11.']
