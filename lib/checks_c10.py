"""mode-split 3D model in a horizontally uniform water column"""
import random
import gen_column as g
import vf


def run(chk):
    chk.model('ColumnMC', workers=4)
    if chk.thorough:
        chk.model('ColumnMC', cfg='ColumnMC_deep.cfg', workers=8)
    rng = random.Random(10 + 100*vf.SEED)
    sc = g.scenarios(rng, 600, g.QUICK + g.MORE) if chk.thorough else g.scenarios(rng, 42)
    sc.append(g.leapfrog_finding())
    chk.validate('ColumnTrace', chk.drive('column', sc, timeout=850))
    chk.assumptions += ['Horizontally uniform states over a flat bottom; layers of equal thickness; no turbulence model.']
