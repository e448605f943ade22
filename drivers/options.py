"""Executes operations on options objects; traces for Options.tla."""
import drv
import copy
import datetime
import traitlets
from thetis import *
import thetis.options as O

MESH = None
SKIP = ('config', 'parent', 'log', 'sediment_model_class')


class World:
    def __init__(self):
        self.ob = {}
        self.label = {}     # id of a value -> (value, printed)

    def value(self, t, v):
        """the python value of type t printed as v"""
        x = self.make(t, v)
        if t in ('func', 'vfunc', 'expr'):
            self.label[id(x)] = (x, t + ' ' + v)
        return x

    def make(self, t, v):
        global MESH
        if t == 'none':
            return None
        if t == 'bool':
            return v == 'True'
        if t == 'float':
            return float(v)
        if t == 'int':
            return int(v)
        if t == 'str':
            return v
        if t == 'const':
            return Constant(float(v))
        if t == 'vconst':
            return Constant([float(x) for x in v.split(',')])
        if t in ('date', 'naive'):
            d = datetime.datetime.fromisoformat(v)
            return d
        if t == 'list':
            return v.split(',') if v else []
        if t == 'dict':
            return dict(x.split('=') for x in v.split(';')) if v else {}
        if t == 'obj':
            return getattr(O, v)()
        if MESH is None:
            MESH = UnitSquareMesh(1, 1)
        if t == 'func':
            return Function(FunctionSpace(MESH, 'CG', 1), name=v)
        if t == 'vfunc':
            return Function(VectorFunctionSpace(MESH, 'CG', 1), name=v)
        if t == 'expr':
            return Constant(1.0)*SpatialCoordinate(MESH)[0]
        raise ValueError(t)

    def leaf(self, x):
        if id(x) in self.label:
            return self.label[id(x)][1]
        if x is None or isinstance(x, bool):
            return str(x)
        if isinstance(x, Constant):
            if x.ufl_shape:
                return 'vconst ' + ','.join(repr(float(a)) for a in x.values())
            return 'const ' + repr(float(x))
        if isinstance(x, float):
            return repr(x)
        if isinstance(x, int):
            return str(x)
        if isinstance(x, str):
            return x
        if isinstance(x, datetime.datetime):
            return 'date ' + x.isoformat()
        if isinstance(x, (list, tuple)):
            return ','.join(str(a) for a in x)
        if isinstance(x, dict):
            return ';'.join('%s=%s' % (k, x[k]) for k in sorted(x))
        return type(x).__name__

    def dump(self, o):
        f = {}
        for n, t in o.traits().items():
            if n in SKIP:
                continue
            x = getattr(o, n)
            if isinstance(x, traitlets.HasTraits) and isinstance(t, traitlets.Instance) and not isinstance(t, traitlets.Dict):
                f[n] = self.dump(x)
            else:
                if isinstance(t, traitlets.Float) and isinstance(x, int) and not isinstance(x, bool):
                    x = float(x)
                f[n] = {'v': self.leaf(x)}
        return {'c': type(o).__name__, 'f': f or []}

    def full(self, o):
        tr, tf = [], []
        if isinstance(o, O.ModelOptions2d):
            for k, t in o.tracer.items():
                m = t.metadata
                tr.append({'label': k, 'name': m['name'], 'shortname': m['shortname'], 'unit': m['unit'], 'filename': m['filename'],
                           'function': self.leaf(t.function), 'source': self.leaf(t.source), 'diffusivity': self.leaf(t.diffusivity),
                           'conservative': self.leaf(t.use_conservative_form)})
            tf = [[k, self.leaf(v)] for k, v in o.tracer_fields.items()]
        return {'o': self.dump(o), 'tr': tr, 'tf': tf}


def at(o, path):
    for p in path:
        o = getattr(o, p)
    return o


def tracer_args(w, x):
    kw = {}
    for k in ('source', 'diffusivity', 'function'):
        if x[k] != 'None':
            t, v = x[k].split(' ', 1)
            kw[k] = w.value(t, v)
    if x['conservative'] == 'True':
        kw['use_conservative_form'] = True
    return kw


def apply(w, op):
    k = op['ev']
    if k == 'new':
        w.ob[op['id']] = getattr(O, op['cls'])()
        return
    o = w.ob[op['id']]
    if k == 'set':
        setattr(at(o, op['path'][:-1]), op['path'][-1], w.value(op['t'], op['v']))
    elif k == 'inplace':
        x = at(o, op['path'])
        if op['how'] == 'assign':
            x.assign(float(op['v']))
        elif op['how'] == 'append':
            x.append(op['v'])
        else:
            a, b = op['v'].split('=')
            x[a] = b
    elif k == 'update':
        o.update({n: w.value(t, v) for n, t, v in op['entries']})
    elif k == 'updatefrom':
        o.update(w.ob[op['src']])
    elif k == 'settype':
        o.set_timestepper_type(op['type'], **{n: w.value(t, v) for n, t, v in op['kw']})
    elif k == 'tracer':
        x = op['x']
        kw = tracer_args(w, x)
        if x['shortname'] != 'None':
            kw['shortname'] = x['shortname']
        if x['unit'] != 'None':
            kw['unit'] = x['unit']
        o.add_tracer_2d(x['label'], x['name'], x['filename'], **kw)
    elif k == 'system':
        xs = op['xs']
        kw = {}
        for x in xs:
            if x['given']:
                a = tracer_args(w, dict(x, function='None'))
                kw[x['label']] = a
        keep = copy.copy({a: dict(b) for a, b in kw.items()})
        more = {}
        if xs[0]['shortname'] != 'None':
            more['shortnames'] = [x['shortname'] for x in xs]
        if xs[0]['unit'] != 'None':
            more['units'] = [x['unit'] for x in xs]
        if op['fn'] != 'None':
            w.value('func', 'one')
            f = Function(MixedFunctionSpace([FunctionSpace(MESH, 'CG', 1) for x in xs]), name=op['fn'].split(' ')[1])
            w.label[id(f)] = (f, op['fn'])
            for x, g in zip(xs, f.subfunctions):
                w.label[id(g)] = (g, x['function'])
            more['function'] = f
        o.add_tracer_system_2d([x['label'] for x in xs], [x['name'] for x in xs], [x['filename'] for x in xs], **more, **kw)
        if kw != keep:
            raise RuntimeError('arguments modified')
    elif k == 'closure':
        at(o, op['path']).apply_defaults(op['name'])
    else:
        raise ValueError(k)


def execute(sc, rec):
    w = World()
    last = {}
    for op in sc['ops']:
        ok, exc = True, 'None'
        try:
            apply(w, op)
        except (traitlets.TraitError, TypeError, AssertionError, ValueError) as e:
            if op['ev'] == 'new':
                raise
            ok, exc = False, type(e).__name__
        ch = []
        for i, o in w.ob.items():
            d = w.full(o)
            if i == op['id'] and op['ev'] == 'new' or last.get(i) != d:
                ch.append([i, d])
                last[i] = d
        rec(op['ev'], **{k: v for k, v in op.items() if k != 'ev'}, ok=ok, exc=exc, ch=ch)


drv.run(execute)
