"""U01: logs, containers, structures, dictionary utilities, option strings, dependencies."""
import copy
import random
import os
import pickle

import numpy as np
import hypothesis.strategies as st

from harness import Sub, check
from m04 import Scratch

import sfepy.discrete  # noqa
from sfepy.base import base as bs
from sfepy.base.base import Container, IndexedStruct, OneTypeList, Output, Struct
from sfepy.base.conf import dict_from_options, dict_from_string
from sfepy.base.log import Log, read_log, write_log
from sfepy.base.parse_conf import list_dict, word_strict
from sfepy.base.resolve_deps import resolve

PROP = 'U01'
RULE = ('Cases: random logs (groups, labels, formats, calls with partial groups and abscissae, '
        'event lines), operation sequences on containers, lists of one type and structures against '
        'Python lists and dictionaries, nested dictionaries of the utilities, random values '
        'rendered as option strings, random dependency graphs.  Non-trivial: more than one item '
        'or operation.')
ASSUMPTIONS = ['log names without commas, colons and quotes, at most one event line per abscissa '
               'and distinct abscissae for rewritten logs',
               'strings of options quoted when not plain words, without both kinds of quotes',
               'dependencies with an admissible matching of equations to variables']

WORD = st.from_regex(r'[A-Za-z][A-Za-z0-9_]{0,6}', fullmatch=True)
FINITE = st.floats(-1e30, 1e30, allow_nan=False, width=64)

# --- log --------------------------------------------------------------------------------------

LABEL = st.one_of(st.none(), st.text('abc xyz$_^\\{}[]0123456789.,:;=+-/()', max_size=10)
                  .map(lambda s: s.strip()))
NAME = st.text('abcXYZ $_^\\{}[]0123456789.;=+-/()|', min_size=1, max_size=8).map(
    lambda s: s.strip()).filter(bool)
FORMATS = ['{:.16e}', '%.16e', '{:.3e}', '%.4f', None]


@st.composite
def log_case(draw, item=None):
    n_gr = draw(st.integers(1, 4))
    groups = []
    for ig in range(n_gr):
        names = draw(st.lists(NAME, min_size=1 if n_gr == 1 else 0, max_size=3))
        groups.append(dict(names=names, xlabel=draw(LABEL), ylabel=draw(LABEL),
                           yscale=draw(st.sampled_from(['linear', 'log'])),
                           formats=draw(st.one_of(st.none(), st.tuples(
                               *[st.sampled_from(FORMATS[:4])] * len(names)))),
                           kw=draw(st.sampled_from([{}, {'ls': '-'}, {'color': 'r', 'lw': 2},
                                                    'each']))))
    calls = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(['full', 'full', 'igs', 'vlines', 'vlines-igs']))
        igs = sorted(draw(st.sets(st.integers(0, n_gr - 1), min_size=1)))
        calls.append(dict(kind=kind, igs=igs, x=draw(st.sampled_from(['none', 'some', 'all'])),
                          arr=draw(st.booleans())))
    return dict(groups=groups, calls=calls, seed=draw(st.integers(0, 10 ** 6)),
                cmplx=draw(st.integers(0, 4)) == 0, add=draw(st.booleans()))


def rounded(fmt, val):
    fmt = fmt or '{:.3e}'
    s = fmt % val if '%' in fmt else fmt.format(val)
    try:
        return float(s)
    except ValueError:
        return complex(s)


def log_run(case):
    rng = np.random.default_rng(case['seed'])
    groups = case['groups']
    kws = [[{'color': 'C%d' % i} for i in range(len(g['names']))] if g['kw'] == 'each' else g['kw']
           for g in groups]
    with Scratch() as scratch:
        path = os.path.join(scratch, 'log.txt')
        log = Log([g['names'] for g in groups], plot_kwargs=kws,
                  xlabels=[g['xlabel'] for g in groups], ylabels=[g['ylabel'] for g in groups],
                  yscales=[g['yscale'] for g in groups],
                  formats=[None if g['formats'] is None else list(g['formats']) for g in groups],
                  is_plot=False, log_filename=path)
        off = np.cumsum([0] + [len(g['names']) for g in groups])
        n = off[-1]
        model = {}
        xs = [[] for _ in groups]
        for call in case['calls']:
            full = call['kind'] in ('full', 'vlines')
            igs = range(len(groups)) if full else call['igs']
            if call['kind'].startswith('vlines'):
                log.plot_vlines(**({} if full else {'igs': igs}), color='g')
                for ig in igs:
                    for ii in range(off[ig], off[ig + 1]):
                        if ii in model and model[ii][0] and (
                                not model[ii][2] or model[ii][2][-1] != model[ii][0][-1]):
                            model[ii][2].append(model[ii][0][-1])
                        elif ii in model and model[ii][0]:
                            model[ii][2].append(model[ii][0][-1])
                continue
            vals = [rng.normal() * 10.0 ** rng.integers(-8, 8) for _ in
                    range(sum(len(groups[ig]['names']) for ig in igs))]
            cmplx = case['cmplx'] and all('%' not in (f or '') for g in groups
                                          for f in (g['formats'] or ()))
            if cmplx:
                vals = [v + 1j * rng.normal() for v in vals]
            kw = {}
            xv = {ig: None for ig in range(len(groups))}
            for ig in igs:
                last = xs[ig][-1] if xs[ig] else None
                if call['x'] == 'all' or (call['x'] == 'some' and rng.random() < 0.5):
                    xv[ig] = (last or 0.0) + float(rng.random()) + 0.01
                    xs[ig].append(xv[ig])
                else:
                    xs[ig].append(0 if last is None else last + 1)
            if call['x'] != 'none':
                kw['x'] = xv
            if not full:
                kw['igs'] = igs
            args = [np.array([v]) if call['arr'] else v for v in vals]
            log(*args, **kw)
            it = iter(vals)
            for ig in igs:
                for ip in range(len(groups[ig]['names'])):
                    ii = off[ig] + ip
                    fmt = groups[ig]['formats'][ip] if groups[ig]['formats'] else None
                    m = model.setdefault(ii, ([], [], [], []))
                    m[0].append(xs[ig][-1])
                    val = next(it)
                    m[1].append(rounded(fmt, val))
                    m[3].append(val)
        for ii in range(n):
            check(list(log.data[ii]) == model.get(ii, ([], [], [], []))[3],
                  'data %d in memory %s', ii, log.data[ii])
        log(finished=True)
        data, info = read_log(path)
        compare_log(data, info, model, groups, kws, 'read')
        # Rewriting keeps the logs: values are written with all digits.
        single = all(len(set(map(float, m[2]))) == len(m[2]) for m in model.values())
        if single and all(ii in data for ii in range(n)):
            path2 = os.path.join(scratch, 'log2.txt')
            write_log(Output('', filename=path2), data, info)
            data2, info2 = read_log(path2)
            compare_log(data2, info2, model, groups, kws, 'rewritten')
        try:
            Log([['a', 'b']], is_plot=False)(1.0)
        except IndexError:
            pass
        else:
            check(False, 'a wrong number of logged values accepted')
    return {'nontrivial': len(model) > 1, 'classes': sorted({c['kind'] for c in case['calls']})}


def compare_log(data, info, model, groups, kws, what):
    check(sorted(info) == list(range(len(groups))), '%s: groups %s', what, sorted(info))
    for ig, g in enumerate(groups):
        xl, yl, ysc, names, pk = info[ig]
        check(xl == (g['xlabel'] or ''), '%s: xlabel %r for %r', what, xl, g['xlabel'],
              key='log-label')
        check(yl == (g['ylabel'] or ''), '%s: ylabel %r for %r', what, yl, g['ylabel'],
              key='log-label')
        check(ysc == g['yscale'], '%s: yscale %r', what, ysc)
        check(names == g['names'], '%s: names %s for %s', what, names, g['names'])
        if names:
            want = kws[ig] if isinstance(kws[ig], list) else [kws[ig]] * len(names)
            check(list(pk) == want, '%s: plot arguments %s for %s', what, pk, want)
    data = {k: v for k, v in data.items() if len(v[0])}
    check(set(data) == set(model), '%s: lines %s for %s', what, sorted(data), sorted(model))
    for ii, m in model.items():
        for got, want, lab in zip(data[ii], m, ['x', 'y', 'vlines']):
            check(list(got) == list(want), '%s: %s of line %d: %s for %s', what, lab, ii,
                  list(got), want)


# --- containers -------------------------------------------------------------------------------

OPS = ['append', 'set-int', 'set-name', 'set-neg', 'set-new', 'insert', 'extend', 'iadd', 'add',
       'remove', 'update', 'get', 'get-default', 'slots', 'iadd-self']
NAMES = ['a', 'b', 'c', 'd', 'e']


@st.composite
def container_case(draw, item=None):
    return dict(init=draw(st.lists(st.sampled_from(NAMES), max_size=4)),
                none=draw(st.booleans()),
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 6),
                                            st.lists(st.sampled_from(NAMES), min_size=1,
                                                     max_size=3)), max_size=15)))


def item(name, cnt=[0]):
    cnt[0] += 1
    return Struct(name=name, val=cnt[0])


def raises(exc, fun, *args, **kw):
    try:
        fun(*args, **kw)
    except exc:
        return True
    return False


def same(cont, ref):
    check(len(cont) == len(ref), 'length %d for %d', len(cont), len(ref))
    check(all(x is y for x, y in zip(cont, ref)) and len(list(cont)) == len(ref), 'items differ')
    names = [o.name for o in ref]
    check(cont.get_names() == names and list(cont.names) == names
          and list(cont.iterkeys()) == names, 'names %s for %s', cont.names, names)
    check(all(x is y for x, y in zip(cont.itervalues(), ref)), 'itervalues()')
    check([(k, v) for k, v in cont.iteritems()] == [(o.name, o) for o in ref], 'iteritems()')
    d = cont.as_dict()
    check(d == {o.name: o for o in ref} and list(d) == list({o.name: o for o in ref}),
          'as_dict()')
    for name in NAMES:
        check(cont.has_key(name) == (name in names), 'has_key(%s)', name)
        if name in names:
            check(cont[name] is ref[names.index(name)], 'item %s', name)
        else:
            check(raises(IndexError, cont.__getitem__, name), 'missing item %s found', name)
    for ii in range(-len(ref) - 2, len(ref) + 2):
        ok = -len(ref) <= ii < len(ref)
        check(cont.has_key(ii) == ok, 'has_key(%d) of %d', ii, len(ref))
        if ok:
            check(cont[ii] is ref[ii], 'item %d', ii)
        else:
            check(raises(IndexError, cont.__getitem__, ii), 'item %d of %d found', ii, len(ref))
    check(raises(IndexError, cont.__getitem__, 1.5), 'a float index accepted')


def container_run(case):
    objs = [item(n) for n in case['init']]
    if case['none']:
        cont, ref = Container(), []
    else:
        cont, ref = Container(list(objs)), list(objs)
    for op, ii, names in case['ops']:
        new = [item(n) for n in names]
        have = [o.name for o in ref]
        if op == 'append':
            cont.append(new[0])
            ref.append(new[0])
        elif op == 'set-int':
            cont[ii] = new[0]
            if ii < len(ref):
                ref[ii] = new[0]
            else:
                ref.append(new[0])
        elif op == 'set-neg' and ref:
            jj = -(ii % len(ref)) - 1
            cont[jj] = new[0]
            ref[jj] = new[0]
        elif op == 'set-name':
            cont[names[0]] = new[0]
            if names[0] in have:
                ref[have.index(names[0])] = new[0]
            else:
                ref.append(new[0])
        elif op == 'set-new':
            # Replace by an object of another name.
            if have:
                old = have[ii % len(have)]
                cont[old] = new[0]
                ref[have.index(old)] = new[0]
        elif op == 'insert':
            cont.insert(ii - 3, new[0])
            ref.insert(ii - 3, new[0])
        elif op == 'extend':
            cont.extend(new)
            ref.extend(new)
        elif op == 'iadd':
            other = Container(list(new))
            cont += other
            ref += new
            same(other, new)
        elif op == 'iadd-self' and len(ref) < 20:
            cont += cont
            ref = ref + ref
        elif op == 'add':
            other = Container(list(new))
            tot = cont + other
            same(tot, ref + new)
            tot.append(item('e'))
            same(other, new)
        elif op == 'remove':
            if names[0] in have:
                cont.remove_name(names[0])
                del ref[have.index(names[0])]
            else:
                check(raises(ValueError, cont.remove_name, names[0]), 'missing name removed')
        elif op == 'update':
            cont.update(list(new))
            ref = list(new)
        elif op in ('get', 'get-default'):
            name = names[0]
            dflt = item('z') if op == 'get-default' else None
            if name in have:
                check(cont.get(name, dflt) is ref[have.index(name)], 'get(%s)', name)
            elif dflt is not None:
                check(cont.get(name, dflt) is dflt, 'get(%s) default', name)
            else:
                check(raises(ValueError, cont.get, name, msg_if_none='no'), 'get(%s) message', name)
                check(raises(IndexError, cont.get, name), 'get(%s)', name)
        same(cont, ref)
    # One type lists.
    otl, lst = OneTypeList(Struct, objs), list(objs)
    check(raises(TypeError, otl.__setitem__, 0, 5) or not objs, 'a wrong type accepted')
    for op, ii, names in case['ops']:
        new = item(names[0])
        if op in ('append', 'iadd'):
            otl.append(new)
            lst.append(new)
        elif op.startswith('set') and lst:
            otl[ii % len(lst)] = new
            lst[ii % len(lst)] = new
        elif op == 'extend':
            more = [item(n) for n in names]
            otl[len(otl):] = more
            lst[len(lst):] = more
        check(list(otl) == lst and otl.get_names() == [o.name for o in lst], 'one type list')
        have = [o.name for o in lst]
        for name in NAMES:
            if name in have:
                kk = have.index(name)
                check(otl[name] is lst[kk] and otl.find(name) is lst[kk]
                      and otl.find(name, ret_indx=True) == (kk, lst[kk]), 'find(%s)', name)
            else:
                check(otl.find(name) is None and raises(IndexError, otl.__getitem__, name),
                      'missing %s found', name)
    return {'nontrivial': len(case['ops']) > 1, 'classes': sorted({o[0] for o in case['ops']})}


# --- structures -------------------------------------------------------------------------------

KEY = st.sampled_from(['x', 'y', 'z', 'u', 'name'])
LEAF = st.one_of(st.integers(-3, 3), st.none(), st.sampled_from(['s', 'T']),
                 st.lists(st.integers(0, 3), max_size=2))
TREE = st.recursive(LEAF, lambda ch: st.dictionaries(KEY, ch, max_size=3), max_leaves=8)
DICT = st.dictionaries(KEY, TREE, max_size=4)


def fix_name(d):
    """Names are strings."""
    return {k: ('nm' if k == 'name' else fix_name(v) if isinstance(v, dict) else v)
            for k, v in d.items()}


def merge_ref(a, b):
    out = dict(a)
    for k, v in b.items():
        if k in a:
            if isinstance(a[k], dict) and isinstance(v, dict):
                out[k] = merge_ref(a[k], v)
        else:
            out[k] = v
    return out


def un(obj):
    if isinstance(obj, Struct):
        return {k: un(v) for k, v in obj.__dict__.items()}
    return obj


def struct_case(item=None):
    return st.fixed_dictionaries(dict(a=DICT.map(fix_name), b=DICT.map(fix_name), key=KEY,
                                      flags=st.lists(st.integers(0, 1), max_size=3)))


def struct_run(case):
    a, b, key = case['a'], case['b'], case['key']
    A, B = bs.structify(copy.deepcopy(a)), bs.structify(copy.deepcopy(b))
    check(un(A) == a and un(B) == b, 'structify(%s)', a)
    C = A + B
    check(un(C) == merge_ref(a, b), 'sum %s of %s and %s', un(C), a, b)
    check(un(A) == a and un(B) == b, 'sum modified its operands')
    D = bs.structify(copy.deepcopy(a))
    D0 = D
    D += B
    check(D is D0 and un(D) == merge_ref(a, b), 'in-place sum %s', un(D))
    check(un(B) == b, 'in-place sum modified its operand')
    for other in (b, bs.Struct(**b)):
        E = Struct(**a)
        E.update(other)
        check(E.__dict__ == {**a, **b}, 'update %s', E.__dict__)
    E.update(None)
    check(E.__dict__ == {**a, **b}, 'update by None')
    check(E.to_dict() == E.__dict__ and E.to_dict() is not E.__dict__, 'to_dict()')
    for cls in (Struct, IndexedStruct):
        F = cls(**a)
        if key not in ('copy',):
            check(F.get(key, 'dflt') == a.get(key, 'dflt'), 'get(%s)', key)
            if a.get(key) is None:
                check(raises(ValueError, F.get, key, None, 'msg'), 'get(%s) of None', key)
            ref = dict(a)
            check(F.set_default(key, 7) == ref.setdefault(key, 7) and F.__dict__ == ref,
                  'set_default(%s)', key)
        if cls is IndexedStruct:
            check(F[key] == ref[key], 'item %s', key)
            F['q'] = 3
            ref['q'] = 3
            check(F.setdefault('w', 4) == 4 and F.setdefault('q', 5) == 3, 'setdefault()')
            check(F.__dict__ == {**ref, 'w': 4}, 'item set')
    for deep in (False, True):
        G = A.copy(deep=deep)
        check(type(G) is Struct and G is not A, 'copy')
        want = dict(un(A))
        if 'name' in a:
            want['name'] = a['name'] + '_copy'
            check(A.copy(deep=deep, name='N').name == 'N', 'name of the copy')
        check(un(G) == want, 'copy %s', un(G))
        for k, v in A.__dict__.items():
            if k != 'name' and isinstance(v, (Struct, list)):
                check((G.__dict__[k] is v) == (not deep), 'deep %s copy of %s', deep, k)
    P = Struct(mod=np, **a)
    Q = pickle.loads(pickle.dumps(P))
    check(Q.mod is np and {k: v for k, v in Q.__dict__.items() if k != 'mod'} == a, 'pickle')
    check(P.mod is np, 'pickling modified the structure')
    # dict_to_struct(): levels of structures and dictionaries.
    flags = (1,) + tuple(case['flags'])

    def expected(obj, level):
        if not isinstance(obj, dict):
            return obj
        fl = flags[level] if level < len(flags) else 0
        return ('S' if fl else 'D', {k: expected(v, level + 1) for k, v in obj.items()})

    def shape(obj):
        if isinstance(obj, Struct):
            return ('S', {k: shape(v) for k, v in obj.__dict__.items()})
        if isinstance(obj, dict):
            return ('D', {k: shape(v) for k, v in obj.items()})
        return obj
    got = bs.dict_to_struct(copy.deepcopy(a), flag=flags)
    check(shape(got) == expected(a, 0), 'dict_to_struct %s for %s', shape(got), expected(a, 0))
    class My(Struct):
        pass
    got = bs.dict_to_struct(a, b, flag=flags, constructor=My)
    check(len(got) == 2 and all(type(g) is My for g in got), 'dict_to_struct constructor')
    check([shape(g) for g in got] == [expected(a, 0), expected(b, 0)], 'dict_to_struct of two')
    return {'nontrivial': len(a) > 1 and len(b) > 1}


# --- dictionaries -----------------------------------------------------------------------------

TUP = st.recursive(LEAF, lambda ch: st.one_of(st.dictionaries(KEY, ch, max_size=3),
                                              st.tuples(ch, ch), st.tuples(ch)), max_leaves=8)
TDICT = st.dictionaries(KEY, TUP, max_size=4)
STR = st.text('abAB', max_size=6)
STUP = st.recursive(st.one_of(STR, st.integers(0, 3)), lambda ch: st.tuples(ch, ch), max_leaves=4)


def dicts_case(item=None):
    return st.fixed_dictionaries(dict(
        dst=TDICT, src=TDICT, tuples=st.booleans(), none=st.booleans(),
        derive=st.one_of(st.none(), st.integers(0, 10**6)),
        strings=st.dictionaries(st.sampled_from('xyz'), st.one_of(STR, st.tuples(STUP, STUP)),
                                max_size=3),
        old=st.lists(st.text('abAB', min_size=1, max_size=2), min_size=1, max_size=3),
        new=st.text('abAB-', max_size=2), recur=st.booleans(),
        inv=st.dictionaries(st.integers(0, 9), st.integers(0, 5), max_size=6),
        invt=st.dictionaries(st.integers(0, 9), st.lists(st.integers(0, 5), max_size=3).map(tuple),
                             max_size=6),
        keys=st.lists(st.sampled_from('pqrstu'), max_size=5, unique=True),
        arr=st.dictionaries(st.integers(0, 6), st.lists(st.integers(0, 9), min_size=2, max_size=2),
                            max_size=4)))


def update_ref(dst, src, tuples, none):
    out = dict(dst)
    for k, v in src.items():
        if k in dst:
            if isinstance(v, dict) and isinstance(dst[k], dict):
                out[k] = update_ref(dst[k], v, tuples, none)
                continue
            if tuples and isinstance(v, tuple) and isinstance(dst[k], tuple):
                out[k] = tuple(update_ref(x, y, tuples, none)
                               if isinstance(x, dict) and isinstance(y, dict) else y
                               for x, y in zip(dst[k], v))
                continue
        if none or v is not None:
            out[k] = v
    return out


def lengths(dst, src):
    """All paired tuples have the same lengths."""
    if isinstance(dst, dict) and isinstance(src, dict):
        return all(lengths(dst[k], v) for k, v in src.items() if k in dst)
    if isinstance(dst, tuple) and isinstance(src, tuple):
        return len(dst) == len(src) and all(lengths(x, y) for x, y in zip(dst, src))
    return True


def replace_ref(val, old, new, recur, level=0):
    if isinstance(val, str):
        return val.replace(old, new)
    if isinstance(val, tuple) and (recur or level == 0):
        return tuple(replace_ref(v, old, new, recur, level + 1) for v in val)
    return val


def derived(val, rng):
    """A value of the same structure with other leaves."""
    if isinstance(val, dict):
        return {k: derived(v, rng) for k, v in val.items() if rng.random() < 0.9}
    if isinstance(val, tuple):
        return tuple(derived(v, rng) for v in val)
    return rng.choice([None, None, 7, 'new', val])


def dicts_run(case):
    dst, src = case['dst'], case['src']
    if case['derive'] is not None:
        rng = random.Random(case['derive'])
        dst = {'k': (1, copy.deepcopy(dst), (2, src)), 'l': dst}
        src = derived(dst, rng)
    if lengths(dst, src):
        got_dst, got_src = copy.deepcopy(dst), copy.deepcopy(src)
        got = bs.update_dict_recursively(got_dst, got_src, case['tuples'], case['none'])
        want = update_ref(dst, src, case['tuples'], case['none'])
        check(got is got_dst and got == want, 'update_dict_recursively(%s, %s, %s, %s) = %s, not %s',
              dst, src, case['tuples'], case['none'], got, want, key='update-dict')
        check(got_src == src, 'update_dict_recursively() modified the source: %s for %s', got_src,
              src, key='update-dict')
    ss, old = case['strings'], case['old']
    ref = copy.deepcopy(ss)
    got = bs.edit_dict_strings(ss, old[0], case['new'], recur=case['recur'])
    check(got == {k: replace_ref(v, old[0], case['new'], case['recur']) for k, v in ref.items()}
          and ss == ref, 'edit_dict_strings() %s of %s', got, ref)
    got = bs.edit_dict_strings(ss, old, [case['new']] * len(old), recur=case['recur'])
    want = ref
    for o in old:
        want = {k: replace_ref(v, o, case['new'], case['recur']) for k, v in want.items()}
    check(got == want and ss == ref, 'edit_dict_strings() %s of %s', got, ref)
    if old:
        check(raises(ValueError, bs.edit_dict_strings, {'a': 1.0}, 'a', 'b'), 'a float edited')
    # Inversion.
    d = case['inv']
    got = bs.invert_dict(d, unique=False)
    check(got == {v: [k for k in d if d[k] == v] for v in d.values()}, 'invert_dict %s', got)
    if len(set(d.values())) == len(d):
        got = bs.invert_dict(d)
        check(got == {v: k for k, v in d.items()} and bs.invert_dict(got) == d, 'invert_dict')
    t = case['invt']
    got = bs.invert_dict(t, is_val_tuple=True, unique=False)
    allv = [v for vals in t.values() for v in vals]
    check(got == {v: [k for k, vals in t.items() for w in vals if w == v] for v in allv},
          'invert_dict of tuples %s', got)
    if len(set(allv)) == len(allv):
        got = bs.invert_dict(t, is_val_tuple=True)
        check(got == {v: k for k, vals in t.items() for v in vals}, 'invert_dict of tuples')
    # Selections.
    keys = case['keys']
    sub = bs.get_subdict(dst, ['x', 'u'] + keys)
    check(sub == {k: v for k, v in dst.items() if k in ['x', 'u'] + keys}, 'get_subdict')
    full = {k: i for i, k in enumerate(keys)}
    check(bs.remap_dict(full, {k + 'n': k for k in keys}) == {k + 'n': full[k] for k in keys},
          'remap_dict')
    e = bs.dict_from_keys_init(keys, list)
    check(e == {k: [] for k in keys} and len({id(v) for v in e.values()}) == len(e),
          'dict_from_keys_init')
    check(bs.dict_from_keys_init(keys) == {k: None for k in keys}, 'dict_from_keys_init')
    for i, k in enumerate(keys):
        e[k].append(i)
    bs.dict_extend(e, {k: [k] for k in keys})
    check(e == {k: [i, k] for i, k in enumerate(keys)}, 'dict_extend')
    m = dict(dst)
    bs.set_defaults(m, src)
    check(m == {**src, **dst}, 'set_defaults')
    check(raises(IndexError, bs.check_names, ['a', 'b'], ['a'], 'no %s'), 'check_names')
    bs.check_names(keys, keys + ['a'], 'no %s')
    check(list(bs.ordered_iteritems(d)) == sorted(d.items()), 'ordered_iteritems')
    arr = {int(k): v for k, v in case['arr'].items()}
    out = bs.dict_to_array(arr)
    want = np.full((max(arr) + 1, 2), -1) if arr else np.zeros((0,))
    for k, v in arr.items():
        want[k] = v
    check(out.shape == want.shape and (out == want).all(), 'dict_to_array %s', out)
    check(dict(bs.iter_dict_of_lists({}, return_keys=True)) == {}, 'iter_dict_of_lists')
    dol = {k: [1, i] for i, k in enumerate(keys)}
    check(list(bs.iter_dict_of_lists(dol)) == [x for v in dol.values() for x in v],
          'iter_dict_of_lists')
    objs = {k: Struct(name=k, region='r%s') for k in keys}
    sel = bs.select_by_names(objs, keys[:2], replace=('region', 'Q'))
    check(list(sel) == keys[:2] and all(v.region == 'rQ' for v in sel.values())
          and all(v.region == 'r%s' for v in objs.values()), 'select_by_names')
    return {'nontrivial': len(set(dst) & set(src)) > 0,
            'classes': ['tuples'] if case['tuples'] else []}


# --- option strings ---------------------------------------------------------------------------

TEXT = st.text('abc XYZ_0123456789.,:;=+-/(){}[]@*', max_size=8)
SCALAR = st.one_of(st.integers(-10 ** 6, 10 ** 6), FINITE, st.booleans(), st.none(),
                   TEXT.map(lambda s: ('quoted', s)),
                   WORD.filter(lambda s: s.lower() not in ('true', 'false', 'none')).map(
                       lambda s: ('word', s)),
                   FINITE.map(lambda x: ('imag', x)))
OPTKEY = st.one_of(WORD.filter(lambda s: s.lower() not in ('true', 'false', 'none')),
                   st.integers(0, 20))


def pairs(d):
    # Cases are stored as JSON, which has no integer keys.
    return [[k, v] for k, v in d.items()]


VALUE = st.recursive(SCALAR, lambda ch: st.one_of(
    st.lists(ch, max_size=3).map(lambda x: ('list', x)),
    st.lists(ch, max_size=3).map(lambda x: ('tuple', x)),
    st.dictionaries(OPTKEY, ch, max_size=3).map(lambda x: ('dict', pairs(x)))), max_leaves=6)


def render(val, fmt):
    """Text and value."""
    sep, colon, quote, trail = fmt
    if isinstance(val, (tuple, list)):
        kind, arg = val
        if kind == 'quoted':
            return quote + arg + quote, arg
        if kind == 'word':
            return arg, arg
        if kind == 'imag':
            # Written as a real number, as the grammar documents.
            return repr(float(arg)) + 'j', complex(0, arg)
        if kind == 'dict':
            parts = [(k, render(v, fmt)) for k, v in arg]
            return ('{' + sep.join('%s%s%s' % (k, colon, t) for k, (t, _) in parts) + '}',
                    {k: v for k, (_, v) in parts})
        parts = [render(v, fmt) for v in arg]
        text = sep.join(t for t, _ in parts)
        if parts and (trail or (kind == 'tuple' and len(parts) == 1)):
            text += ','
        vals = [v for _, v in parts]
        return ('[' + text + ']', vals) if kind == 'list' else ('(' + text + ')', tuple(vals))
    return repr(val), val


def options_case(item=None):
    return st.fixed_dictionaries(dict(
        vals=st.dictionaries(OPTKEY, VALUE, max_size=3).map(pairs), args=st.lists(VALUE, max_size=3),
        more=st.dictionaries(OPTKEY, SCALAR, max_size=3).map(pairs),
        sep=st.sampled_from([',', ', ', ' ,']), colon=st.sampled_from([':', '=', ': ', ' = ']),
        quote=st.sampled_from(['"', "'"]), trail=st.booleans()))


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [typed(v) for v in x])
    return (type(x).__name__, x)


def options_run(case):
    fmt = (case['sep'], case['colon'], case['quote'], case['trail'])
    text, val = render(('dict', case['vals']), fmt)
    text = text[1:-1]
    got = dict_from_string(text)
    check(typed(got) == typed(val), '%r parsed as %s, not %s', text, got, val, key='parse')
    more, mval = render(('dict', case['more']), fmt)
    more = more[1:-1]
    got = dict_from_options(Struct(conf=text, app_options=more))
    want = dict(val)
    if more and isinstance(want.get('options', {}), dict):
        want['options'] = {**want.get('options', {}), **mval}
        check(typed(got) == typed(want), 'options %r and %r parsed as %s', text, more, got)
    check(dict_from_string(None) == {} and dict_from_string(val) is val, 'dict_from_string')
    # Lists followed by named items.
    at, av = render(('list', case['args']), fmt[:3] + (False,))
    names = [[k, v] for k, v in case['vals'] if isinstance(k, str)]
    nt, nv = render(('dict', names), fmt)
    line = case['sep'].join(x for x in (at[1:-1], nt[1:-1]) if x)
    # Free words can contain digits and a space ends them.
    spaces = any(s.startswith(' ') for s in (case['sep'], case['colon']))
    got = (list_dict(word_strict) if spaces else list_dict()).parseString(line, True)[0]
    check(typed(got[0]) == typed(av) and typed(got[1]) == typed(nv),
          '%r parsed as %s, not %s, %s', line, got, av, nv, key='parse')
    if text:
        for bad in ('{' + text, text + ')', text + ' [', text + ',,'):
            check(raises(Exception, dict_from_string, bad), 'wrong string %r accepted', bad)
    return {'nontrivial': len(case['vals']) > 1,
            'classes': sorted({v[0] if isinstance(v, (tuple, list)) else type(v).__name__
                               for _, v in case['vals']})}


# --- dependencies -----------------------------------------------------------------------------

@st.composite
def deps_case(draw, item=None):
    n = draw(st.integers(1, 6))
    match = draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n))
    edges = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=2 * n))
    return dict(n=n, match=list(match), edges=edges, order=draw(st.permutations(range(n))),
                lists=draw(st.booleans()))


def deps_run(case):
    n = case['n']
    names = ['v%d' % i for i in range(n)]
    deps = {names[i]: {names[case['match'][i]]} for i in case['order']}
    for i, j in case['edges']:
        deps[names[i]].add(names[j])
    if case['lists']:
        deps = {k: sorted(v) for k, v in deps.items()}
    ref = copy.deepcopy(deps)
    order = resolve(deps)
    check(deps == ref, 'resolve() modified the dependencies')
    flat = [x for b in order for x in b]
    check(sorted(flat) == sorted(names), 'blocks %s of %s', order, ref)
    known = set()
    for block in order:
        need = set().union(*[set(ref[x]) for x in block])
        check(need <= known | set(block), 'block %s of %s needs %s', block, ref, need)
        check(need - known == set(block), 'block %s of %s cannot be solved', block, ref)
        check(list(block) == sorted(block), 'block %s not sorted', block)
        # No smaller part of it could be solved.
        rest = [x for x in names if x not in known]
        import itertools
        for num in range(1, len(block)):
            for sub in itertools.combinations(block, num):
                nd = set().union(*[set(ref[x]) for x in sub]) - known
                check(nd != set(sub), 'block %s of %s can be split', block, ref)
        known |= set(block)
    return {'nontrivial': n > 2, 'classes': ['blocks%d' % len(order)]}


SUBS = [
    Sub('containers', container_case, container_run, 150, 4000),
    Sub('dependencies', deps_case, deps_run, 200, 6000),
    Sub('dictionaries', dicts_case, dicts_run, 300, 8000),
    Sub('log', log_case, log_run, 120, 4000),
    Sub('options', options_case, options_run, 150, 5000),
    Sub('structures', struct_case, struct_run, 200, 6000),
]
