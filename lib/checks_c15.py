"""netCDF time series"""
import random
import gen_timeseries as g
import vf


def run(chk):
    chk.model('TimeSeriesMC', workers=4)
    if chk.thorough:
        chk.model('TimeSeriesMC', cfg='TimeSeriesMC_deep.cfg', workers=8)
    sc = g.scenarios(random.Random(15 + 100*vf.SEED), 3000 if chk.thorough else 400)
    chk.validate('TimeSeriesTrace', chk.drive('timeseries', sc))
    chk.assumptions += ['Data sets without overlapping files; times exactly at the last stamp are left open.']
