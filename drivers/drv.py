"""Skeleton of a driver process: executes scenarios, writes one trace line per scenario."""
import json
import os
import sys
import traceback


class Rec:
    """Records the events of one scenario."""
    def __init__(self, tid, cfg):
        self.tid = tid
        self.cfg = cfg
        self.ev = []

    def __call__(self, ev, /, **kw):
        e = {'ev': ev}
        e.update(kw)
        self.ev.append(e)
        return e


def run(execute, batch=None):
    """execute(scenario, rec) records events; exceptions of the code become events."""
    d = sys.argv[1]
    os.chdir(d)
    with open('in.json') as f:
        scen = json.load(f)
    rank = 0
    try:
        from mpi4py import MPI
        rank = MPI.COMM_WORLD.rank
    except ImportError:
        pass
    out = open('out.ndjson', 'a') if rank == 0 else open(os.devnull, 'w')
    open('started', 'w').close()
    for sc in scen:
        rec = Rec(sc['tid'], sc.get('cfg', {k: v for k, v in sc.items() if k != 'tid'}))
        sd = os.path.join(d, 's%d' % sc['tid'])
        os.makedirs(sd, exist_ok=True)
        os.chdir(sd)
        try:
            execute(sc, rec)
        except Skip as e:
            print('skipped', sc['tid'], e)
        except (Exception, SystemExit) as e:
            traceback.print_exc()
            rec('exception', type=type(e).__name__, msg=str(e)[:500],
                where=''.join(traceback.format_tb(e.__traceback__)[-2:])[:600])
        os.chdir(d)
        out.write(json.dumps({'tid': rec.tid, 'cfg': rec.cfg, 'ev': rec.ev}) + '\n')
        out.flush()
    out.close()


class Skip(Exception):
    pass
