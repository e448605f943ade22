"""Entry point: python main.py ID"""
import importlib
import sys
import traceback
import vf


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module('checks_' + prop.lower())
        chk = vf.Check(prop)
        mod.run(chk)
        rc = chk.finish()
    except vf.MachineryError as e:
        print('ERROR (machinery) %s: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
