"""model options"""
import random
import gen_options as g
import vf


def run(chk):
    chk.model('OptionsMC', workers=4)
    if chk.thorough:
        chk.model('OptionsMC', cfg='OptionsMC_deep.cfg', workers=8)
    rng = random.Random(18 + 100*vf.SEED)
    sc = g.scenarios(rng, 1500 if chk.thorough else 64)
    chk.validate('OptionsTrace', chk.drive('options', sc, timeout=850))
    chk.assumptions += ['Options set from Python; configuration files are not read.']
