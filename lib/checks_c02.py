"""exports"""
import random
import gen_runloop
import vf

FOCUS = ['export', 'files_on_disk', 'file_', 'inv_export', 'step_before_obligations_func', 'step_before_obligations_exp', 'end_before_obligations_func', 'end_before_obligations_exp']


def run(chk):
    gen_runloop.run(chk, FOCUS, random.Random(2 + 100*vf.SEED))
