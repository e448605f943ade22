"""Interpolation of structured data on unstructured meshes"""
import random
import gen_gridinterp as g
import vf


def run(chk):
    chk.model('GridInterpMC', workers=4)
    sc = g.scenarios(random.Random(16 + 100*vf.SEED), 4000 if chk.thorough else 640)
    chk.validate('GridInterpTrace', chk.drive('gridinterp', sc))
    chk.assumptions += ['Rectangular source grids in two dimensions, affine data in three.']
