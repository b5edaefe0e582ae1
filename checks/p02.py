"""P02: equivalent problem descriptions."""
import os
import types

import numpy as np
import hypothesis.strategies as st

from harness import Sub, Skip, Violation, check, close
import m04

from sfepy.base.base import IndexedStruct, Struct
from sfepy.base.conf import ProblemConf, get_standard_keywords
from sfepy.discrete import Problem
from sfepy.discrete.fem import periodic
from sfepy.mesh.mesh_generators import gen_block_mesh

PROP = 'P02'
RULE = ('Cases: random problem description (regions, fields, variables of all kinds, conditions with and '
        'without times, periodic and linear combination conditions, materials by values and functions, '
        'integrals, functions, solvers, options) x syntax of every single entry x placement x way of '
        'loading x overrides. Non-trivial: at least one entry in the long syntax or an override.')
ASSUMPTIONS = ['conditions of the descriptions do not conflict', 'independent of the order of entries of a group '
               'except of variables without the order']

GROUPS = ['regions', 'fields', 'variables', 'materials', 'ebcs', 'epbcs', 'lcbcs', 'ics', 'integrals',
          'functions', 'solvers']
SINGLE = {g: g[:-1] for g in GROUPS}

FUNS = '''
import numpy as np


def get_f(ts, coors, mode=None, **kwargs):
    if mode == 'qp':
        t = 0.0 if ts is None else ts.time
        return {'f': (1.0 + t + coors[:, 0] * coors[:, 1]).reshape((-1, 1, 1))}


def get_x(coors, domain=None):
    return np.where((coors[:, 0] < 0.6) | (coors[:, 1] < 0.4))[0]


def get_bc(ts, coors, bc=None, problem=None, **kwargs):
    return coors[:, 1] ** 2 + (0 if ts is None else ts.time)


def get_ic(coors, ic=None):
    return coors[:, 0] + 2 * coors[:, 1]


def set_p(ts, coors, region=None, variable=None, **kwargs):
    return coors[:, 0] - coors[:, 1]


def get_dep(ts, coors, mode=None, **kwargs):
    if mode == 'qp':
        return {'val': np.full((len(coors), 1, 1), 0.7)}
'''


class Expr:
    """A source code expression."""

    def __init__(self, s):
        self.s = s


def src(v):
    if isinstance(v, Expr):
        return v.s
    if isinstance(v, np.ndarray):
        return 'np.array(%r)' % v.tolist()
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (src(k), src(x)) for k, x in v.items())
    if isinstance(v, tuple):
        return '(%s)' % ''.join(src(x) + ', ' for x in v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(src(x) for x in v)
    return repr(v)


def canonical(case):
    """{group: {name: {attribute: value}}}."""
    rs = np.random.RandomState(case['seed'])
    o, tr = case['order'], case['transient']
    per = case['link'] == 'epbc'
    d = {g: {} for g in GROUPS}
    R = d['regions']
    R['Omega'] = dict(select='all')
    R['Left'] = dict(select='vertices in (x < 0.001)', kind='facet')
    R['Right'] = dict(select='vertices in (x > 0.999)', kind='facet')
    R['Bottom'] = dict(select='vertices in (y < 0.001)', kind='facet')
    R['Top'] = dict(select='vertices in (y > 0.999)', kind='facet')
    R['Sub'] = dict(select='vertices by get_x')
    if case['parent']:
        R['Part'] = dict(select='cells of group 0', kind='cell', parent='Omega')
    R['Corner'] = dict(select='r.Left *v r.Bottom', kind='vertex')
    F = d['fields']
    F['ft'] = dict(dtype='real', shape=(1,) if rs.randint(2) else 'scalar', region='Omega',
                   approx_order=o)
    F['fu'] = dict(dtype='float64' if case['dtype'] else 'real', shape='vector', region='Omega', approx_order=1,
                   space='H1', poly_space_basis='lagrange')
    V = d['variables']
    V['T'] = dict(kind='unknown field', field='ft', order=int(rs.randint(2)))
    if tr:
        V['T']['history'] = 1
    V['s'] = dict(kind='test field', field='ft', dual='T')
    V['u'] = dict(kind='unknown field', field='fu', order=1 - V['T']['order'])
    V['v'] = dict(kind='test field', field='fu', dual='u')
    V['P'] = dict(kind='parameter field', field='ft', like=None, special={'setter': 'set_p'})
    M = d['materials']
    M['m'] = dict(values={'c': float(rs.uniform(0.5, 2))})
    M['load'] = dict(function='get_f')
    D = np.diag([3.0, 2.0, 1.0]) + 0.3
    M['el'] = dict(values={'D': D, '.nu': 0.3})
    M['b'] = dict(values={'al': np.array([[1.0], [0.5], [0.1]])}, kind='stationary')
    M['dep'] = dict(function='get_dep', kind='time-dependent')
    E = d['ebcs']
    E['t1'] = dict(region='Left', dofs={'T.0': 1.5})
    E['t2'] = dict(region='Right', dofs={'T.all': 'get_bc'})
    if case['times']:
        changing = case['times'] == 1 and not (tr and case['link'] == 'lcbc')
        E['t2']['times'] = [(0.0, 0.15), (0.35, 1.0)] if changing else [(-1.0, 2.0)]
    E['u1'] = dict(region='Bottom' if per else 'Left', dofs={'u.all': 0.0})
    if per:
        d['epbcs']['p'] = dict(region=['Left', 'Right'], dofs={'u.all': 'u.all'}, match='match_y_line')
        if case['times'] == 2:
            d['epbcs']['p']['times'] = [(-1.0, 3.0)]
        d['functions']['match_y_line'] = dict(function=Expr('match_y_line'))
    if case['link'] == 'lcbc':
        d['lcbcs']['l'] = dict(region='Right', dofs={'u.all': None}, dof_map_fun=None, kind='rigid')
        if case['times'] == 2:
            d['lcbcs']['l']['times'] = [(-1.0, 3.0)]
    if tr:
        d['ics']['i'] = dict(region='Omega', dofs={'T.0': 'get_ic' if rs.randint(2) else 2.0})
    d['integrals']['i'] = dict(order=2 * o)
    if case['integral']:
        gx = np.array([[0.2, 0.3], [0.7, 0.4]])
        d['integrals']['ic'] = dict(order='custom', vals=gx, weights=np.array([0.4, 0.6]))
    for k in ('get_f', 'get_x', 'get_bc', 'get_ic', 'set_p', 'get_dep'):
        d['functions'][k] = dict(function=Expr(k))
    S = d['solvers']
    S['ls'] = dict(kind='ls.scipy_direct')
    S['newton'] = dict(kind='nls.newton', i_max=int(rs.randint(1, 4)), eps_a=1e-8, eps_r=1.0)
    if tr:
        S['ts'] = dict(kind='ts.simple', t0=0.0, t1=0.6, dt=None, n_step=4)
    single = dict(
        equations={
            'e1': ('dw_dot.i.Omega(s, dT/dt) + ' if tr else '') + 'dw_laplace.i.Omega(m.c, s, T) = '
            + 'dw_volume_lvf.%s.Sub(load.f, s)' % ('ic' if case['integral'] else 'i'),
            'e2': 'dw_lin_elastic.i.Omega(el.D, v, u) + dw_dot.i.Omega(dep.val, v, u) = '
                  'dw_biot.i.Omega(b.al, v, P)' + (' + dw_biot.i.Omega(b.al, v, T)' if case['coupled'] else ''),
        },
        options=dict(nls='newton', ls='ls', output_dir='.', save_times='all', my_list=[1, 2.5, 'a'],
                     my_none=None))
    if tr:
        single['options']['ts'] = 'ts'
        if case['times'] == 1 and case['link'] != 'lcbc':
            # The set of constrained DOFs changes.
            single['options']['active_only'] = False
    return d, single


ORDERS = {
    'fields': ['dtype', 'shape', 'region', 'approx_order', 'space', 'poly_space_basis'],
    'regions': ['select', 'kind', 'parent'],
    'functions': ['function'],
}


def short(group, c):
    c = dict(c)
    if group == 'regions':
        if set(c) == {'select'}:
            return c['select']
    if group in ORDERS:
        return tuple(c[k] for k in ORDERS[group] if k in c)
    if group == 'variables':
        out = (c['kind'], c['field'])
        if c['kind'].startswith('unknown'):
            return out + (c['order'],) + ((c['history'],) if 'history' in c else ())
        if c['kind'].startswith('test'):
            return out + (c['dual'],)
        return out + (c['special'],)
    if group == 'materials':
        if set(c) == {'function'}:
            return c['function']
        if 'kind' in c:
            return (c.get('values'), c.get('function'), c['kind'])
        return (c['values'],)
    if group in ('ebcs', 'ics'):
        return (c['region'],) + ((c['times'],) if 'times' in c else ()) + (c['dofs'],)
    if group == 'epbcs':
        return (c['region'],) + ((c['times'],) if 'times' in c else ()) + (c['dofs'], c['match'])
    if group == 'lcbcs':
        return (c['region'],) + ((c['times'],) if 'times' in c else ()) \
            + (c['dofs'], c['dof_map_fun'], c['kind'])
    if group == 'integrals':
        if 'vals' in c:
            return (c['order'], c['vals'], c['weights'])
        return c['order']
    if group == 'solvers':
        c = dict(c)
        return (c.pop('kind'), c)
    raise ValueError(group)


def source(case, desc, single, mesh, choices, loader):
    """The text of a problem description file."""
    rs = np.random.RandomState(choices)
    p_long = 0.0 if choices == 0 else 0.5
    lines, n_long = [], 0
    for g in GROUPS:
        items = list(desc[g].items())
        if choices:
            items = [items[i] for i in rs.permutation(len(items))]
        inside, k = {}, int(rs.randint(0, 50))
        for name, c in items:
            if rs.rand() >= p_long:
                inside[name] = short(g, c)
                continue
            n_long += 1
            k += 1 + rs.randint(5)
            full = dict(c)
            if g == 'solvers':
                pass
            if g == 'lcbcs' and full['dof_map_fun'] is None and rs.randint(2):
                full.pop('dof_map_fun')
            if g == 'fields' and full['dtype'] == 'real' and rs.randint(2):
                full.pop('dtype')
            full = dict([('name', name)] + list(full.items()))
            keys = list(full)
            full = {keys[i]: full[keys[i]] for i in rs.permutation(len(keys))}
            if rs.randint(2):
                lines.append('%s_%d = %s' % (SINGLE[g], k, src(full)))
            else:
                inside['%s_%d' % (SINGLE[g], k)] = full
        if inside or rs.randint(2) or g in ('regions',):
            lines.append('%s = %s' % (g, src(inside)))
    for k, v in single.items():
        lines.append('%s = %s' % (k, src(v)))
    lines.append('filename_mesh = %r' % mesh)
    if choices:
        lines = [lines[i] for i in rs.permutation(len(lines))]
    head = FUNS + '\nfrom sfepy.discrete.fem.periodic import match_y_line\n'
    if loader.startswith('define'):
        args = 'c_value=1.0, order=1' if loader != 'define' else ''
        out = head + 'def define(%s):\n' % args + ''.join('    %s\n' % k for k in lines) \
            + '    return locals()\n'
    else:
        out = head + '\n'.join(lines) + '\n'
    return out, n_long


def load(path, text, loader, define_args, override=None):
    name = os.path.join(path, 'desc_%s.py' % abs(hash(text)))
    with open(name, 'w') as fd:
        fd.write(text)
    required, other = get_standard_keywords()
    kw = dict(verbose=False)
    if loader in ('file', 'define', 'define-dict', 'define-tuple', 'define-str'):
        if override is None:
            return ProblemConf.from_file(name, required, other, define_args=define_args, **kw)
        return ProblemConf.from_file_and_options(name, Struct(**override), required, other,
                                                 define_args=define_args, **kw)
    mod = types.ModuleType('desc')
    mod.__file__ = name
    exec(compile(text, name, 'exec'), mod.__dict__)
    if loader == 'module':
        return ProblemConf.from_module(mod, required, other, **kw)
    d = {k: v for k, v in mod.__dict__.items() if not k.startswith('__') and not callable(v)
         and not isinstance(v, types.ModuleType)}
    return ProblemConf.from_dict(d, mod, required, other, **kw)


def same(a, b):
    if isinstance(a, Expr):
        return callable(b) and b.__name__ == a.s
    if isinstance(b, Expr):
        return same(b, a)
    if callable(a) or callable(b):
        return callable(a) and callable(b) and a.__name__ == b.__name__
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    return type(a) == type(b) and a == b


DEFAULTS = {'kind': None, 'function': None, 'values': None, 'times': None, 'like': None,
            'dof_map_fun': None, 'arguments': ()}


def structure(conf, desc, single):
    """The configuration has exactly the canonical contents."""
    for g in GROUPS:
        items = getattr(conf, g)
        names = sorted(i.name for i in items.values())
        check(names == sorted(desc[g]), '%s: names %s, should be %s', g, names, sorted(desc[g]),
              key='names')
        for item in items.values():
            want = dict(desc[g][item.name])
            if g == 'fields':
                want['dtype'] = {'real': np.float64}.get(want['dtype'], want['dtype'])
            got = {k: v for k, v in item.__dict__.items() if k not in ('name', '_default')}
            for k in sorted(set(want) | set(got)):
                if k == 'flags' and k not in want:
                    continue
                a = want.get(k, DEFAULTS.get(k, 'missing'))
                b = got.get(k, DEFAULTS.get(k, 'missing'))
                if k == 'dtype' and got.get(k) is not None:
                    check(a is b or a == b, '%s.%s.dtype: %s', g, item.name, b, key='dtype')
                    continue
                check(same(a, b), '%s.%s.%s: %s, should be %s', g, item.name, k, b, a, key='entry')
    check(same(single['equations'], conf.equations), 'equations', key='equations')
    opt = {k: v for k, v in conf.options.__dict__.items() if k != 'name'}
    check(same(single['options'], opt), 'options: %s', opt, key='options')
    for k, v in single['options'].items():
        check(same(conf.options.get(k, 'x'), v), 'option %s', k, key='options')


def solution(conf, path):
    periodic.periodic_cache.clear()
    prob = Problem.from_conf(conf)
    prob.setup_output(output_dir=path)
    state = prob.solve(save_results=False, verbose=False)
    return prob, {v.name: np.array(v(), dtype=float) for v in state.iter_state()}


def equal(a, b, what, key):
    check(set(a) == set(b), '%s: variables %s', what, sorted(b), key=key)
    for k in a:
        close(b[k], a[k], 1e-9, 1e-10, '%s: %s' % (what, k), key=key)


def make_mesh(case, path):
    mesh = gen_block_mesh([1, 1], [case['nx'] + 1, case['ny'] + 1], [0.5, 0.5], verbose=False)
    name = os.path.join(path, 'm.mesh')
    mesh.write(name, io='auto', verbose=False)
    return name


def run_syntax(case):
    desc, single = canonical(case)
    with m04.Scratch() as path:
        mesh = make_mesh(case, path)
        text, _ = source(case, desc, single, mesh, 0, 'file')
        base = load(path, text, 'dict', None)
        structure(base, desc, single)
        _, ref = solution(base, path)
        check(all(np.isfinite(v).all() for v in ref.values()), 'finite solution')
        loader = case['loader']
        d2, args = desc, None
        if loader in ('define-dict', 'define-tuple', 'define-str'):
            d2 = {g: {k: dict(v) for k, v in x.items()} for g, x in desc.items()}
            c, o = desc['materials']['m']['values']['c'], case['order']
            d2['materials']['m']['values'] = {'c': Expr('c_value')}
            d2['fields']['ft']['approx_order'] = Expr('order')
            args = {'define-dict': dict(c_value=c, order=o), 'define-tuple': (c, o),
                    'define-str': 'c_value : %r, order : %d' % (c, o)}[loader]
        text, n_long = source(case, d2, single, mesh, 1 + case['choices'], loader)
        conf = load(path, text, loader, args)
        structure(conf, desc, single)
        prob, got = solution(conf, path)
        equal(ref, got, 'solution of the description loaded by ' + loader, 'solution')
        # The configuration may be used again.
        structure(conf, desc, single)
        prob2, got2 = solution(conf, path)
        equal(got, got2, 'second problem', 'second')
        # Copies.
        cp = prob2.copy()
        st_ = cp.solve(save_results=False, verbose=False)
        equal(ref, {v.name: np.array(v(), dtype=float) for v in st_.iter_state()}, 'copy', 'copy')
        if not case['transient']:
            st_ = prob.solve(save_results=False, verbose=False)
            equal(ref, {v.name: np.array(v(), dtype=float) for v in st_.iter_state()}, 'solved again', 'again')
        prob.reset()
        prob.set_equations(conf.equations)
        st_ = prob.solve(save_results=False, verbose=False)
        equal(ref, {v.name: np.array(v(), dtype=float) for v in st_.iter_state()}, 'reset problem', 'reset')
        if not case['transient'] and case['link'] is None:
            blocks = dict(single, options=dict(single['options'], block_solve=True))
            text, _ = source(case, desc, blocks, mesh, 0, 'file')
            _, got = solution(load(path, text, 'file', None), path)
            equal(ref, got, 'block solve', 'block-solve')
    return {'nontrivial': n_long > 0, 'classes': [loader, case['link'] or 'nolink', 'times%d' % case['times'],
                                                 'transient' if case['transient'] else 'stationary']}


def text_of(v):
    """Text of a value in the syntax of command line overrides."""
    if isinstance(v, dict):
        return '{%s}' % ', '.join("'%s' : %s" % (k, text_of(x)) for k, x in v.items())
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(text_of(x) for x in v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(text_of(x) for x in v)
    if isinstance(v, str):
        return "'%s'" % v
    return repr(v)


def run_override(case):
    desc, single = canonical(case)
    rs = np.random.RandomState(case['seed'] + 7)
    new = {g: {k: dict(v) for k, v in x.items()} for g, x in desc.items()}
    conf_over, opt_over = {}, {}
    new_single = {k: dict(v) for k, v in single.items()}
    for kind in case['kinds']:
        if kind == 'solver':
            i = int(rs.randint(1, 9))
            conf_over.setdefault('solvers', {})['newton'] = ('nls.newton', {'i_max': i})
            new['solvers']['newton']['i_max'] = i
        elif kind == 'material':
            c = float(rs.uniform(1, 2))
            conf_over.setdefault('materials', {})['m'] = ({'c': c},)
            new['materials']['m']['values'] = {'c': c}
        elif kind == 'integral':
            o = int(rs.randint(4, 7))
            conf_over.setdefault('integrals', {})['i'] = o
            new['integrals']['i'] = {'order': o}
        elif kind == 'region':
            conf_over.setdefault('regions', {})['Sub'] = 'all'
            new['regions']['Sub'] = {'select': 'all'}
        elif kind == 'ebc':
            v = float(rs.uniform(-2, 2))
            conf_over.setdefault('ebcs', {})['t1'] = ('Left', {'T.0': v})
            new['ebcs']['t1']['dofs'] = {'T.0': v}
        elif kind == 'new':
            conf_over.setdefault('regions', {})['Other'] = ('cells of group 0', 'cell')
            new['regions']['Other'] = {'select': 'cells of group 0', 'kind': 'cell'}
        elif kind == 'option':
            v = [None, True, 'word', 3, 2.5, [1, 2]][rs.randint(6)]
            conf_over.setdefault('options', {})['my_list'] = v
            new_single['options']['my_list'] = v
        elif kind == 'app':
            v = [False, 'other', 7, -1.5, ['a', 'b']][rs.randint(5)]
            opt_over['my_none'] = v
            opt_over['my_new'] = 1
            new_single['options'].update(opt_over)
    conf_text = ', '.join('%s : %s' % (k, text_of(v)) for k, v in conf_over.items()) or None
    opt_text = ', '.join('%s : %s' % (k, text_of(v)) for k, v in opt_over.items()) or None
    with m04.Scratch() as path:
        mesh = make_mesh(case, path)
        loader = case['loader'] if case['loader'] in ('file', 'define') else 'file'
        text, _ = source(case, desc, single, mesh, 0, loader)
        conf = load(path, text, loader, None, dict(conf=conf_text, app_options=opt_text))
        structure(conf, new, new_single)
        # A file loaded once more is not influenced.
        structure(load(path, text, loader, None), desc, single)
        text, _ = source(case, new, new_single, mesh, 0, loader)
        _, ref = solution(load(path, text, loader, None), path)
        _, got = solution(conf, path)
        equal(ref, got, 'overridden description', 'override-solution')
    return {'nontrivial': bool(case['kinds']), 'classes': case['kinds']}


def run_missing(case):
    desc, single = canonical(dict(case, link=None))
    rs = np.random.RandomState(case['seed'] + 3)
    with m04.Scratch() as path:
        mesh = make_mesh(case, path)
        text, _ = source(case, desc, single, mesh, 0, 'file')
        mod = types.ModuleType('desc')
        exec(text, mod.__dict__)
        d = {k: v for k, v in mod.__dict__.items() if not k.startswith('__') and not callable(v)
             and not isinstance(v, types.ModuleType)}
        required, other = get_standard_keywords()
        need = ['filename_mesh', 'fields', 'ebcs', 'equations', 'regions', 'variables', 'materials',
                'solvers']
        drop = need[case['drop']]
        d1 = {k: v for k, v in d.items() if k != drop}
        keys = sorted(d1)
        try:
            ProblemConf.from_dict(dict(d1), mod, required, other, verbose=False)
            raised = False
        except ValueError as e:
            raised = True
            check(drop.rstrip('s') in str(e), 'message: %s', e, key='missing-message')
        check(raised, 'missing %s not reported', drop, key='missing')
        check(sorted(d1) == keys, 'dictionary changed', key='missing')
        # Not required.
        for k in ('ics', 'epbcs', 'lcbcs', 'integrals', 'options', 'functions'):
            ProblemConf.from_dict({a: b for a, b in d.items() if a != k}, mod, required, other,
                                  verbose=False)
        # Required keywords of the caller.
        r2 = required + ['my_special']
        try:
            ProblemConf.from_dict(dict(d), mod, r2, other, verbose=False)
            raise Violation('missing special keyword not reported')
        except ValueError:
            pass
        c = ProblemConf.from_dict(dict(d, my_special=3), mod, r2, other, verbose=False)
        check(c.my_special == 3, 'special keyword')
        # A raw form, items by names, functions.
        c = ProblemConf.from_dict(dict(d), mod, required, other, verbose=False)
        for g in ('regions', 'ebcs', 'materials'):
            check(set(c.get_raw(g)) == set(d[g]), 'raw %s', g, key='raw')
            for name in desc[g]:
                check(c.get_item_by_name(g, name).name == name, 'item %s', name, key='item')
        check(c.get_function('get_f') is mod.get_f and c.get_function(None) is None
              and c.get_function(mod.get_x) is mod.get_x, 'functions', key='get-function')
        try:
            c.get_function('nothing_like_this')
            raise Violation('unknown function')
        except ValueError:
            pass
        # Edits.
        c.edit('materials', {'q': ({'a': 1},)})
        check([i.name for i in c.materials.values()] == ['q'], 'edit', key='edit')
    return True


def strategy(item=None):
    return st.fixed_dictionaries(dict(
        nx=st.integers(2, 3), ny=st.integers(1, 3), order=st.integers(1, 2),
        transient=st.integers(0, 1), link=st.sampled_from([None, 'epbc', 'lcbc']),
        parent=st.integers(0, 1), dtype=st.just(0), times=st.integers(0, 2),
        integral=st.integers(0, 1), coupled=st.integers(0, 1),
        loader=st.sampled_from(['file', 'define', 'define-dict', 'define-tuple', 'define-str',
                                'module', 'dict']),
        choices=st.integers(0, 10 ** 6), seed=st.integers(0, 10 ** 6), drop=st.integers(0, 7),
        kinds=st.lists(st.sampled_from(['solver', 'material', 'integral', 'region', 'ebc', 'new', 'option',
                                        'app']), unique=True, max_size=6)))


SUBS = [
    Sub('syntax', strategy, run_syntax, 120, 5000),
    Sub('override', strategy, run_override, 60, 2500),
    Sub('missing', strategy, run_missing, 40, 1000),
]
