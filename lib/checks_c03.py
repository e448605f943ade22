"""callbacks"""
import random
import gen_runloop
import vf

FOCUS = ['callback', 'step_before_obligations_stepcb', 'step_before_obligations_expcb', 'end_before_obligations_stepcb', 'end_before_obligations_expcb', 'clock_time', 'state_version']


def run(chk):
    gen_runloop.run(chk, FOCUS, random.Random(3 + 100*vf.SEED))
