"""Diagnostic callbacks: values and time series"""
import random
import gen_diagnostics as g
import vf


def run(chk):
    chk.model('DiagnosticsMC', workers=4)
    if chk.thorough:
        chk.model('DiagnosticsMC', cfg='DiagnosticsMC_deep.cfg', workers=8)
    sc = g.scenarios(random.Random(6 + 100*vf.SEED), 1500 if chk.thorough else 240)
    chk.validate('DiagnosticsTrace', chk.drive('diagnostics', sc))
    chk.assumptions += ['Fields are affine in space (nodal fields for min/max), on rectangles and boxes with moved meshes.']
