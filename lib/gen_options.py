"""Scenarios for Options.tla: operations on options objects (the table of options is read from OptionsTable.tla)."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def table():
    t, cls = {}, None
    for ln in open(os.path.join(HERE, '..', 'spec', 'OptionsTable.tla')):
        m = re.match(r'   (\w+) \|-> \[$', ln)
        if m:
            cls = t[m.group(1)] = {}
            continue
        m = re.match(r'   (\w+) \|-> <<>>', ln)
        if m:
            t[m.group(1)] = {}
            continue
        m = re.match(r'      (\w+) \|-> \[k \|-> "(\w+)", d \|-> "(.*?)", none \|-> (\w+)(.*)\]', ln)
        if m:
            r = {'k': m.group(2), 'd': m.group(3), 'none': m.group(4) == 'TRUE'}
            x = m.group(5)
            v = re.search(r'values \|-> \{(.*?)\}', x)
            if v:
                r['values'] = [a.strip(' "') for a in v.group(1).split(',')]
            v = re.search(r'to \|-> "(\w+)"', x)
            if v:
                r['to'] = v.group(1)
                mp = re.search(r'map \|-> \[(.*?)\]', x).group(1)
                r['map'] = dict(re.findall(r'(\w+) \|-> "(\w+)"', mp))
            cls[m.group(1)] = r
    return t


T = table()
QUICK = [{'name': 'options'}]


class State:
    """just enough of the state to generate sensible operations"""
    def __init__(self):
        self.types = {}      # (id, path) -> class of the node

    def new(self, i, cls, path=()):
        for k in [k for k in self.types if k[0] == i and k[1][:len(path)] == path]:
            del self.types[k]
        self.types[i, path] = cls
        for n, r in T[cls].items():
            if r['k'] in ('slave', 'inst'):
                self.new(i, r['d'], path + (n,))


def num(rng, r):
    k = r['k']
    if k in ('posint', 'nnint', 'int'):
        return ['int', str(rng.choice([1, 2, 3, 5, 0, -1, -3] if rng.random() < 0.4 else [1, 2, 4]))]
    if k == 'bfloat':
        return [rng.choice(['float'])] + [rng.choice(['0.5', '0.75', '1.0', '0.499', '1.01', '-0.6', '0.6'])]
    return rng.choice([['float', repr(rng.choice([0.25, 1.5, 3.7, 12.0, 0.1]))], ['float', '-2.5'], ['float', '0.0'], ['int', '3'],
                       ['float', '1e-09'], ['float', '-1e-06'], ['int', '0'], ['float', '7200.0']])


def value(rng, r, n):
    """type and value for option r: mostly of the right type"""
    k = r['k']
    u = rng.random()
    if u < 0.07:
        return ['none', 'None']
    if u < 0.17:
        t, v = rng.choice([['str', 'something'], ['float', '0.3'], ['const', '0.5'], ['vconst', '1.0,2.0'], ['list', 'p,q'], ['obj', 'GLSModelOptions'], ['naive', '2001-02-03T04:05:06'], ['func', 'f%d' % n]])
        # types that python or traitlets take for another one
        if not (k in ('const', 'coef') and t == 'vconst'):
            return [t, v]
    if k == 'bool':
        return ['bool', rng.choice(['True', 'False'])]
    if k in ('float', 'posfloat', 'nnfloat', 'bfloat', 'int', 'posint', 'nnint'):
        return num(rng, r)
    if k == 'enum':
        return ['str', rng.choice(r['values'] + ['zzz'])]
    if k == 'paired':
        return ['str', rng.choice(list(r['map']) * 3 + ['zzz', r['d'].lower()])]
    c = ['const', repr(rng.choice([0.0, 1.0, 2.5, -3.0, 1e-3]))]
    if k == 'const':
        return c
    if k == 'coef':
        return rng.choice([c, ['func', 'f%d' % n], ['expr', 'e%d' % n]])
    if k == 'sexpr':
        return rng.choice([c, ['func', 'f%d' % n], ['expr', 'e%d' % n], ['vfunc', 'v%d' % n]])
    if k == 'vexpr':
        return rng.choice([c, ['vconst', '1.0,-2.0'], ['vfunc', 'v%d' % n], ['func', 'f%d' % n]])
    if k == 'date':
        return rng.choice([['date', '2001-02-03T04:05:06+00:00'], ['date', '2010-12-31T23:59:59-08:00'], ['naive', '2001-02-03T04:05:06']])
    if k == 'params':
        return ['dict', rng.choice(['ksp_type=preonly;pc_type=lu', 'ksp_type=cg', ''])]
    if k == 'str':
        return ['str', rng.choice(['abc', 'out/dir'])]
    if k == 'list':
        return ['list', rng.choice(['elev_2d', 'uv_2d,elev_2d', ''])]
    return None


def scenario(rng, nops):
    st = State()
    ops, info = [], {}
    froz = set()
    cnt = [0]
    classes = ['ModelOptions2d', 'ModelOptions2d', 'ModelOptions2d', 'ModelOptions3d', 'ModelOptions3d', 'TidalTurbineFarmOptions',
               'DiscreteTidalTurbineFarmOptions', 'NonhydrostaticModelOptions', 'SedimentModelOptions', 'GLSModelOptions',
               'PressureProjectionSWETimeStepperOptions2d', 'LinearEquationOfStateOptions', 'CrankNicolsonTracerTimeStepperOptions2d']
    names = 'abcdefgh'

    def new(cls=None):
        i = names[len(info)]
        cls = cls or rng.choice(classes)
        info[i] = {'cls': cls, 'labels': []}
        st.new(i, cls)
        ops.append({'ev': 'new', 'id': i, 'cls': cls})
        return i
    first = rng.choice(classes[:6])
    new(first)
    new(first if rng.random() < 0.7 else None)

    def node(i):
        c = [(k[1], v) for k, v in st.types.items() if k[0] == i and T[v]]
        if i in froz or rng.random() < 0.35:
            return (), info[i]['cls']
        return rng.choice(c)

    def setop(i, path, cls, n, tv):
        ops.append({'ev': 'set', 'id': i, 'path': list(path) + [n], 't': tv[0], 'v': tv[1]})
        r = T[cls].get(n)
        if r and r['k'] == 'paired' and tv[0] == 'str' and tv[1] in r['map']:
            st.new(i, r['map'][tv[1]], path + (r['to'],))
            return
        if r and r['k'] in ('slave', 'inst') and tv[0] == 'obj':
            own = [q for q in T[cls].values() if q.get('to') == n]
            if tv[1] in (own[0]['map'].values() if own else [r['d']]):
                st.new(i, tv[1], path + (n,))

    while len(ops) < nops:
        cnt[0] += 1
        i = rng.choice(list(info))
        cls = info[i]['cls']
        u = rng.random()
        if u < 0.08 and len(info) < 6:
            # defaults are not affected by earlier operations
            new(rng.choice(classes) if rng.random() < 0.3 else rng.choice([q['cls'] for q in info.values()]))
        elif u < 0.14 and cls == 'ModelOptions2d' and i not in froz:
            ty = rng.choice(['SSPRK33', 'ForwardEuler', 'BackwardEuler', 'CrankNicolson', 'DIRK22', 'DIRK33'])
            kw = [['ad_block_tag', 'str', 'tag%d' % cnt[0]]] if rng.random() < 0.4 else []
            if ty == 'CrankNicolson' and rng.random() < 0.5:
                kw.append(['implicitness_theta', 'float', rng.choice(['0.6', '1.0'])])
            if ty in ('BackwardEuler', 'CrankNicolson', 'DIRK22', 'DIRK33') and rng.random() < 0.5:
                kw.append(['use_semi_implicit_linearization', 'bool', 'True'])
            if ty in ('SSPRK33', 'ForwardEuler') and rng.random() < 0.5:
                kw.append(['use_automatic_timestep', 'bool', 'False'])
            for p in (['sediment_model_options', 'solve_exner'], ['sediment_model_options', 'solve_suspended_sediment'], ['nh_model_options', 'solve_nonhydrostatic_pressure']):
                if rng.random() < 0.5:
                    ops.append({'ev': 'set', 'id': i, 'path': p, 't': 'bool', 'v': rng.choice(['True', 'True', 'False'])})
            rng.shuffle(kw)
            ops.append({'ev': 'settype', 'id': i, 'type': ty, 'kw': kw})
            # the classes of the nodes are the model's business: start a fresh object
            froz.add(i)
            if len(info) < 6:
                new(cls)
        elif u < 0.24 and cls == 'ModelOptions2d':
            lab = rng.choice(['t%d' % cnt[0], 'q%d' % cnt[0]] + info[i]['labels'] + (['bad label', 'bad,label'] if rng.random() < 0.4 else []))
            x = {'label': lab, 'name': 'Tracer %d' % cnt[0], 'filename': rng.choice(['F%d' % cnt[0]]*5 + ['F %d' % cnt[0]]),
                 'shortname': rng.choice(['None', 'sh%d' % cnt[0]]), 'unit': rng.choice(['None', 'psu']),
                 'function': rng.choice(['None', 'func tf%d' % cnt[0]]), 'source': rng.choice(['None', 'const 0.5', 'func s%d' % cnt[0]]),
                 'diffusivity': rng.choice(['None', 'const 3.0']), 'conservative': rng.choice(['False', 'True'])}
            x['badlabel'] = ' ' in lab or ',' in lab
            x['badfile'] = ' ' in x['filename']
            if not x['badlabel'] and not x['badfile']:
                info[i]['labels'].append(lab)
            ops.append({'ev': 'tracer', 'id': i, 'x': x})
        elif u < 0.29 and cls == 'ModelOptions2d':
            n = rng.choice([2, 2, 3])
            fn = rng.choice(['None', 'func mix%d' % cnt[0]])
            anygiven = rng.random() < 0.7
            sh, un = rng.random() < 0.5, rng.random() < 0.5
            xs = []
            for k in range(n):
                given = anygiven and rng.random() < 0.6
                lab = 'm%d%s' % (cnt[0], 'abc'[k])
                info[i]['labels'].append(lab)
                xs.append({'label': lab, 'name': 'Mixed %d%d' % (cnt[0], k), 'filename': 'M%d%d' % (cnt[0], k), 'shortname': 'ms%d' % k if sh else 'None',
                           'unit': 'u%d' % k if un else 'None', 'function': 'None' if fn == 'None' else 'func sub%d%d' % (cnt[0], k),
                           'source': rng.choice(['None', 'const 0.5']) if given else 'None', 'diffusivity': rng.choice(['None', 'const 3.0']) if given else 'None',
                           'conservative': rng.choice(['False', 'True']) if given else 'False', 'given': given})
            ops.append({'ev': 'system', 'id': i, 'xs': xs, 'fn': fn})
        elif u < 0.34:
            c = [(k[1], v) for k, v in st.types.items() if k[0] == i and v == 'GLSModelOptions']
            if c and i not in froz:
                ops.append({'ev': 'closure', 'id': i, 'path': list(c[0][0]), 'name': rng.choice(['k-epsilon', 'k-omega', 'k-omega', 'Generic Length Scale', 'Generic Length Scale', 'MY'])})
        elif u < 0.42 and i not in froz:
            # dictionary of admissible entries in any order
            path, c = (), cls
            en, used = [], set()
            for n in rng.sample(sorted(T[c]), min(len(T[c]), rng.randint(1, 6))):
                r = T[c][n]
                if r['k'] == 'paired' and n not in used:
                    ty = rng.choice(sorted(r['map']))
                    en.append([n, 'str', ty])
                    used |= {n, r['to']}
                    st.new(i, r['map'][ty], (r['to'],))
                    if rng.random() < 0.7:
                        en.append([r['to'], 'obj', r['map'][ty]])
                elif r['k'] == 'bool':
                    en.append([n, 'bool', rng.choice(['True', 'False'])])
                elif r['k'] in ('posfloat', 'nnfloat', 'float'):
                    en.append([n, 'float', repr(rng.choice([0.25, 1.5, 3.7]))])
                elif r['k'] in ('const', 'sexpr'):
                    en.append([n, 'const', '4.5'])
                elif r['k'] == 'enum':
                    en.append([n, 'str', rng.choice(r['values'])])
            if en:
                rng.shuffle(en)
                ops.append({'ev': 'update', 'id': i, 'entries': en})
        elif u < 0.46 and i not in froz:
            src = [j for j in info if j != i and info[j]['cls'] == cls and j not in froz]
            if src:
                j = rng.choice(src)
                ops.append({'ev': 'updatefrom', 'id': i, 'src': j})
                froz |= {i, j}      # they share their component options from here on
                if len(info) < 6:
                    new(cls)
        elif u < 0.6:
            path, c = node(i)
            if i in froz:
                continue
            c2 = [(n, r) for n, r in T[c].items() if r['k'] in ('const', 'params', 'list') or (r['k'] in ('sexpr', 'coef') and r['d'].startswith('const'))]
            c2 = [(n, r) for n, r in c2 if (i, path + (n,)) not in info[i].get('touched', set()) and n not in ('power_coefficients', 'thrust_coefficients', 'thrust_speeds', 'turbine_coordinates')]
            if c2:
                n, r = rng.choice(c2)
                how = {'params': 'entry', 'list': 'append'}.get(r['k'], 'assign')
                if how == 'assign':
                    # the value is a Constant if it was not replaced by something else: make sure
                    if rng.random() < 0.4:
                        ops.append({'ev': 'set', 'id': i, 'path': list(path) + [n], 't': 'const', 'v': '9.5'})
                    elif any(o['ev'] in ('set', 'update', 'updatefrom') and o['id'] == i for o in ops):
                        ops.append({'ev': 'set', 'id': i, 'path': list(path) + [n], 't': 'const', 'v': '8.5'})
                    v = repr(rng.choice([0.0, 6.25, -1.5, 100.0]))
                elif r['none'] or r['d'] == 'None':
                    continue
                else:
                    v = 'zz%d' % cnt[0] if how == 'append' else 'zz%03d=%s' % (cnt[0], rng.choice(['1', 'lu']))
                ops.append({'ev': 'inplace', 'id': i, 'path': list(path) + [n], 'how': how, 'v': v})
        elif u < 0.64:
            path, c = node(i)
            ops.append({'ev': 'set', 'id': i, 'path': list(path) + [rng.choice(['no_such_option', 'timestep_', 'solve_exner2'])], 't': 'float', 'v': '1.0'})
        else:
            path, c = node(i)
            pick = sorted(T[c])
            if rng.random() < 0.3:
                pick = [n for n in pick if T[c][n]['k'] in ('paired', 'slave', 'enum')] or pick
            n = rng.choice(pick)
            r = T[c][n]
            if r['k'] == 'dict' or n in ('power_coefficients', 'thrust_coefficients', 'thrust_speeds', 'turbine_coordinates'):
                continue
            if r['k'] in ('slave', 'inst'):
                if i in froz:
                    continue
                own = [q for q in T[c].values() if q.get('to') == n]
                v = rng.choice((sorted(own[0]['map'].values()) if own else [r['d']])*2 + ['TracerFieldOptions'])
                setop(i, path, c, n, ['obj', v])
            else:
                tv = value(rng, r, cnt[0])
                if tv is None or (i in froz and r['k'] == 'paired'):
                    continue
                setop(i, path, c, n, tv)
    return {'cfg': {}, 'group': 'options', 'ops': ops, 'setup': 0.3}


def scenarios(rng, n, groups=None):
    return [scenario(rng, rng.randint(30, 60)) for k in range(n)]
