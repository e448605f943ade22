"""simulation clock"""
import random
import gen_runloop
import vf

FOCUS = ['clock', 'iteration_count', 'state_version', 'step_', 'stopped', 'end_before', 'yield', 'order_begin', 'inv_clock', 'inv_iteration', 'inv_end']


def run(chk):
    gen_runloop.run(chk, FOCUS, random.Random(1 + 100*vf.SEED))
