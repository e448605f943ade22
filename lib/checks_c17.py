"""momentum forcing, friction and tracer sources (horizontally uniform flow)"""
import random
import gen_uniformflow as g
import vf


def run(chk):
    chk.model('UniformFlowMC', workers=4)
    if chk.thorough:
        chk.model('UniformFlowMC', cfg='UniformFlowMC_deep.cfg', workers=8)
    rng = random.Random(17 + 100*vf.SEED)
    if chk.thorough:
        sc = g.scenarios(rng, 900, g.QUICK + g.MORE)
    else:
        sc = g.scenarios(rng, 90)
    chk.validate('UniformFlowTrace', chk.drive('uniformflow', sc, timeout=800))
    chk.assumptions += ['Roots, powers and logarithms of the friction laws are evaluated in double precision by the specification.',
                        'The fully nonlinear form of the multi-stage implicit schemes is not covered (BackwardEuler and CrankNicolson are).']
