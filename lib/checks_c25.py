"""geometry and diagnostic fields of the 3D model"""
import random
import gen_diag3d as g
import vf


def run(chk):
    chk.model('Diag3dMC', workers=4)
    if chk.thorough:
        chk.model('Diag3dMC', cfg='Diag3dMC_deep.cfg', workers=8)
    rng = random.Random(25 + 100*vf.SEED)
    sc = g.scenarios(rng, 600, g.QUICK + g.MORE) if chk.thorough else g.scenarios(rng, 36)
    chk.validate('Diag3dTrace', chk.drive('diag3d', sc, timeout=850))
    chk.assumptions += ['Rectangular 2D meshes; fields of degree 1; one equation of state and one set of closure constants per group.',
                        'Pressure gradient compared for flat layers (affine density) and for uniform density under a plane surface.']
