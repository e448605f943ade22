"""exact spatial operators for affine fields"""
import random
import gen_affine as g
import vf


def run(chk):
    chk.model('AffineMC', workers=4)
    if chk.thorough:
        chk.model('AffineMC', cfg='AffineMC_deep.cfg', workers=8)
    rng = random.Random(20 + 100*vf.SEED)
    sc = g.scenarios(rng, 900, g.QUICK + g.MORE) if chk.thorough else g.scenarios(rng, 54)
    chk.validate('AffineTrace', chk.drive('affine', sc, timeout=850))
    chk.assumptions += ['Affine states on a rectangle with consistent boundary data; explicit (ForwardEuler) steps.']
