"""
Common machinery of the checks: TLC runs, driver processes, trace validation, evidence, verdict.

A check

1. model-checks its specification (bounded, exhaustive) with TLC,
2. obtains scenarios, from the specification (TLC) and/or a seeded generator,
3. lets driver processes execute the scenarios with the real code of /repo; every scenario
   produces one trace: ``{"tid": n, "cfg": {...}, "ev": [{...}, ...]}``,
4. has TLC validate every trace against the specification (module ``<X>Trace``).

A trace that the specification rejects is a violation; TLC names the failing clauses.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
TLA = '/opt/veriftools/tla/'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NCPU = min(8, os.cpu_count() or 1)


# clauses that concern every property
ALWAYS = ('no_exception', 'no_crash', 'crash', 'unknown_event', 'run_incomplete')


class MachineryError(Exception):
    pass


def rat(x):
    """Exact rational string of a number (module Rat)."""
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return 'nan' if x != x else ('inf' if x > 0 else '-inf')
    f = Fraction(x)
    return str(f)


def dec(x, digits=13):
    """Decimal string of a float with the given number of significant digits."""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return 'nan' if x != x else ('inf' if x > 0 else '-inf')
    return '%.*e' % (digits - 1, x)


def build_classes():
    """Compiles the module overrides into build/classes (atomically)."""
    dst = os.path.join(BUILD, 'classes')
    src = os.path.join(SPEC, 'java')
    names = sorted(f for f in os.listdir(src) if f.endswith('.java'))
    ok = all(os.path.exists(os.path.join(dst, f[:-5] + '.class')) and
             os.path.getmtime(os.path.join(dst, f[:-5] + '.class')) >= os.path.getmtime(os.path.join(src, f))
             for f in names)
    if ok:
        return dst
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    subprocess.run(['javac', '-cp', TLA + 'tla2tools.jar', '-d', tmp] + [os.path.join(src, f) for f in names],
                   check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(dst, f))
    shutil.rmtree(tmp, ignore_errors=True)
    return dst


class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
        m = re.findall(r'([\d]+) states generated ([\d]+) distinct states found', out.replace(',', '')) or m
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and 'No error has been found' in out
        self.simulated = 'simulation' in out.lower()

    def prints(self, tag):
        """Values printed with PrintT(<<tag, json>>) as parsed JSON."""
        res = []
        for m in re.finditer(r'<<\s*"%s"\s*,\s*"((?:[^"\\]|\\.)*)"\s*>>' % re.escape(tag), self.out):
            s = m.group(1)
            s = re.sub(r'\\(["\\])', r'\1', s)
            res.append(json.loads(s))
        return res


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap='2g', simulate=None, depth=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>."""
    cls = build_classes()
    cfg = cfg or module + '.cfg'
    meta = tempfile.mkdtemp(prefix='tlc')
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
           '-cp', os.pathsep.join([cls, TLA + 'tla2tools.jar', TLA + 'CommunityModules-deps.jar']),
           'tlc2.TLC', '-config', os.path.join(SPEC, cfg), '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-lncheck', 'final']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100), '-seed', str(SEED)]
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError('TLC timed out on %s: %s' % (module, (exc.stdout or b'')[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout, p.returncode)


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [],
                    'model_runs': [], 'trace_runs': []}
        self.assumptions = []
        self.thorough = TIER == 'thorough'
        self.stage = {}

    def note_time(self, name, t):
        self.stage[name] = round(self.stage.get(name, 0) + time.time() - t, 1)

    # -- 1. the model ----------------------------------------------------------------------
    def model(self, module, cfg=None, workers=4, timeout=800, expect=None, **kw):
        """Exhaustive (or simulated) check of the specification; returns the TLC result."""
        t = time.time()
        r = tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        self.note_time('model', t)
        if not r.ok and not (kw.get('simulate') and r.rc == 0):
            raise MachineryError('specification %s/%s is not accepted by TLC:\n%s' % (module, cfg, r.out[-4000:]))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['model_runs'].append({'module': module, 'cfg': cfg or module + '.cfg',
                                       'distinct_states': r.distinct, 'states_generated': r.generated})
        return r

    # -- 2./3. the code ----------------------------------------------------------------------
    def drive(self, driver, scenarios, shards=None, timeout=700, mpi=1, env=None):
        """Executes scenarios (list of JSON objects) in driver processes, returns traces."""
        t = time.time()
        shards = max(1, min(shards or NCPU, len(scenarios)))
        tag = '%s_%d' % (os.path.basename(driver), len(self.cov['trace_runs']) + len(os.listdir(self.work)))
        parts = [[] for _ in range(shards)]
        # scenarios of one group (sharing compiled kernels) go to the same process
        size, where = [0]*shards, {}
        for i, s in enumerate(scenarios):
            if 'group' in s:
                if s['group'] not in where:
                    where[s['group']] = min(range(shards), key=lambda q: size[q])
                    size[where[s['group']]] += s.get('setup', 4)
                k = where[s['group']]
            else:
                k = i % shards
            size[k] += 1
            parts[k].append(dict(s, tid=i + 1))
        parts = [p for p in parts if p]
        procs = []
        e = dict(os.environ)
        e.update(env or {})
        for k, part in enumerate(parts):
            d = os.path.join(self.work, '%s_%d' % (tag, k))
            os.makedirs(d)
            with open(os.path.join(d, 'in.json'), 'w') as f:
                json.dump(part, f)
            cmd = [sys.executable, os.path.join(ROOT, 'drivers', driver + '.py'), d]
            if mpi > 1:
                cmd = ['mpiexec', '-n', str(mpi)] + cmd
            log = open(os.path.join(d, 'log.txt'), 'w')
            procs.append((d, part, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                                    start_new_session=True), log))
        traces = []
        deadline = time.time() + timeout
        for d, part, p, log in procs:
            hung = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                import signal
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            log.close()
            got = {}
            fn = os.path.join(d, 'out.ndjson')
            if os.path.exists(fn):
                with open(fn) as f:
                    for line in f:
                        if line.strip().endswith('}'):
                            try:
                                r = json.loads(line)
                            except ValueError:
                                continue
                            got[r['tid']] = r
            if hasattr(self, 'keep_logs') or p.returncode != 0:
                self.last_log = open(os.path.join(d, 'log.txt')).read()[-6000:]
            if p.returncode != 0 and not got and not os.path.exists(os.path.join(d, 'started')):
                raise MachineryError('driver %s failed to start:\n%s' % (driver, self.last_log))
            first = True
            for s in part:
                if s['tid'] in got:
                    traces.append(got[s['tid']])
                elif first:
                    # the process died or hung in this scenario
                    first = False
                    traces.append({'tid': s['tid'], 'cfg': s.get('cfg', s),
                                   'ev': [{'ev': 'crash', 'what': 'hang' if hung else 'exit %s' % p.returncode,
                                           'log': self.last_log[-1500:] if p.returncode and not hung else ''}]})
        self.note_time('drive', t)
        by = {i + 1: s for i, s in enumerate(scenarios)}
        for tr in traces:
            tr['_scenario'] = by[tr['tid']]
            tr['_driver'] = driver
        traces.sort(key=lambda x: x['tid'])
        return traces

    # -- 4. the binding ----------------------------------------------------------------------
    def validate(self, module, traces, cfg=None, timeout=600, workers=4, env=None, focus=None):
        """Validates traces against spec/<module>.tla.  Returns the list of rejections."""
        t = time.time()
        if not traces:
            raise MachineryError('no traces for %s' % module)
        fn = os.path.join(self.work, 'traces_%s_%d.ndjson' % (module, len(self.cov['trace_runs'])))
        crashed = [tr for tr in traces if any(e.get('ev') == 'crash' for e in tr['ev'])]
        good = [tr for tr in traces if tr not in crashed]
        rejections = []
        for tr in crashed:
            rejections.append({'tid': tr['tid'], 'line': len(tr['ev']), 'fails': ['crash'], 'trace': tr})
        nev = 0
        if good:
            with open(fn, 'w') as f:
                for tr in good:
                    nev += len(tr['ev'])
                    f.write(json.dumps({k: v for k, v in tr.items() if not k.startswith('_')}) + '\n')
            e = {'TRACE_FILE': fn}
            e.update(env or {})
            r = tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap='4g')
            if not r.ok:
                raise MachineryError('trace validation with %s failed to run:\n%s' % (module, r.out[-5000:]))
            verdict = {}
            for v in r.prints('TRACE'):
                verdict[v['tid']] = v
            byid = {tr['tid']: tr for tr in good}
            for tid, tr in byid.items():
                v = verdict.get(tid)
                if v is None:
                    raise MachineryError('no verdict for trace %s of %s:\n%s' % (tid, module, r.out[-3000:]))
                if v['fails']:
                    rejections.append({'tid': tid, 'line': v['line'], 'fails': sorted(v['fails']), 'trace': tr})
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.generated
            self.cov['traces_validated_against_impl'] += len(good)
            self.cov['trace_runs'].append({'module': module, 'traces': len(good), 'events': nev,
                                           'states': r.distinct})
        if good and len(self.cov['samples']) < 6:
            tr = good[len(good) // 2]
            self.cov['samples'].append({'module': module, 'scenario': tr.get('_scenario'),
                                        'first_events': tr['ev'][:4], 'events': len(tr['ev'])})
        self.note_time('validate', t)
        for rj in rejections:
            if focus is None or any(f.startswith(p) for f in rj['fails'] for p in tuple(focus) + ALWAYS):
                self._violation(module, rj)
            else:
                # a rejected trace that says nothing about this property (another check reports it)
                self.cov.setdefault('rejections_outside_property', []).append(rj['fails'])
        return rejections

    def _violation(self, module, rj):
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s_%s_%d.json' % (self.prop, module, len(self.violations)))
        tr = rj['trace']
        with open(fn, 'w') as f:
            json.dump({'property': self.prop, 'module': module, 'driver': tr.get('_driver'),
                       'scenario': tr.get('_scenario'), 'fails': rj['fails'], 'line': rj['line'],
                       'trace': {k: v for k, v in tr.items() if not k.startswith('_')}}, f, indent=1)
        ev = tr['ev'][rj['line'] - 1] if 0 < rj['line'] <= len(tr['ev']) else 'end of trace'
        self.violations.append({'file': fn, 'module': module, 'fails': rj['fails'], 'event': ev,
                                'scenario': tr.get('_scenario')})

    # -- verdict -------------------------------------------------------------------------------
    def known_findings(self):
        res = []
        fn = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line.startswith('{'):
                    r = json.loads(line)
                    if r.get('property') == self.prop and r.get('status') == 'known':
                        res.append(r)
        return res

    def finish(self):
        known = self.known_findings()
        seen, left = set(), []
        for v in self.violations:
            for k in known:
                if set(v['fails']) <= set(k['fails']) and (v['scenario'] or {}).get('finding') == k['id']:
                    seen.add(k['id'])
                    break
            else:
                left.append(v)
        for k in known:
            if k['id'] in seen:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(left)}
        self.cov['stage_seconds'] = self.stage
        if seen:
            self.cov['known_findings'] = sorted(seen)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for v in left[:20]:
            print('  rejected: %s fails=%s' % (v['module'], ','.join(v['fails'])))
            print('    scenario: %s' % json.dumps(v['scenario'])[:600])
            print('    event: %s' % json.dumps(v['event'])[:1500])
        for v in left[:20]:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['file']))
        c = self.cov
        print('%s %s: %d traces of the implementation validated, %d states, %.1f s %s' % (
            self.prop, 'VIOLATED' if left else 'held', c['traces_validated_against_impl'], c['states'],
            ev['wall_s'], self.stage))
        return 1 if left else 0
