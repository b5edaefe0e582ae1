"""M05: saved results and data structures are read back unchanged."""
import glob
import os

import numpy as np
import scipy.sparse as sp
import hypothesis.strategies as st
import tables as pt

import gen
import pb
from harness import Sub, check, close
from m04 import ALL, Scratch, compare, to_mesh, build

from sfepy.base.base import Struct
from sfepy.base import ioutils as iou
from sfepy.discrete.fem import Mesh
from sfepy.discrete.fem.meshio import MeshIO
from sfepy.postprocess import time_history as thm
from sfepy.solvers.ts import TimeStepper

PROP = 'M05'
RULE = ('Cases: random meshes x result dictionaries (names, modes, components, types, DOF names) x '
        'sequences of saved steps and times; nested values (dictionaries, lists, tuples, Struct, '
        'scalars, strings, arrays, sparse matrices, meshes, shared marked objects) in one or more '
        'writes to a file; states of problems with fields of orders 0 to 2 on sub-regions saved '
        'with all splitting options.  Everything read is compared with the generated values.  '
        'Non-trivial: more than one step, value or variable.')
ASSUMPTIONS = ['dictionary keys in containers are non-empty strings without slashes',
               'lists, arrays and matrices have elements',
               'markers to be unpacked are in lists and dictionaries', 'names of results of one step differ '
               'after replacing special characters by underscores',
               'VTK files hold scalars and vectors (values in the mesh dimension are compared)']


# --- results in HDF5 files ----------------------------------------------------------------------

def make_out(rs, r, names, step):
    nv = len(r['coors'])
    tdim = max(int(d[0]) for d in r['descs'])
    nc = sum(len(c) for d, c in zip(r['descs'], r['conns']) if int(d[0]) == tdim)
    out, ref = {}, {}
    for name, mode, nco, dt, dofs in names:
        def rnd(*sh):
            a = rs.uniform(-1, 1, sh) * 10.0 ** rs.randint(-3, 4)
            if dt == 'complex':
                a = a + 1j * rs.uniform(-1, 1, sh)
            if dt == 'int':
                a = rs.randint(-100, 100, sh)
            if dt == 'float32':
                a = a.astype(np.float32)
            return a
        kw = {}
        if mode == 'vertex':
            data = rnd(nv, nco)
        elif mode == 'cell':
            data = rnd(nc, 1, nco, 1)
        elif mode == 'full':
            data = rnd(nv + 3, nco)
            kw = {'field_name': 'field%d' % nco}
        else:
            data = {'a': rnd(2, nco), 'b': [1, 'x%d' % step, None]}
        s = Struct(name='n%s' % name, mode=mode, data=data, **kw)
        if mode != 'custom' and dofs:
            s.dofs = tuple('%s.%d' % (name, i) for i in range(nco))
            s.var_name = name
            s.region_name = 'Omega'
        out[name] = s
        ref[name] = (mode, data, kw.get('field_name'), getattr(s, 'dofs', None))
    return out, ref


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a == b).all()


def eq_custom(x, y):
    return (isinstance(x, dict) and set(x) == set(y) and same(x['a'], y['a'])
            and x['b'] == y['b'])


def run_h5(case):
    r = build(case)
    m = to_mesh(r)
    rs = np.random.RandomState(case['seed'])
    n = case['n_step']
    ts = TimeStepper(case['t0'], case['t0'] + case['len'], n_step=n)
    times = np.array(ts.times)
    if case['uneven']:
        times = case['t0'] + np.sort(rs.uniform(0, case['len'], n))
    saved = [i for i in range(n) if case['save'][i % len(case['save'])] or i == 0]
    names = case['names']
    ref = {}
    with Scratch() as tmp:
        fn = os.path.join(tmp, 'out.h5')
        for i, (step, time) in enumerate(ts):
            if step not in saved:
                continue
            ts.time = times[step]
            ts.nt = (times[step] - case['t0']) / case['len']
            out, ref[step] = make_out(rs, r, names, step)
            before = {k: np.array(v.data, copy=True) for k, v in out.items()
                      if v.mode != 'custom'}
            m.write(fn, io='auto', out=out, ts=ts)
            check(all(same(out[k].data, v) for k, v in before.items()), 'given data changed')
        compare(Mesh.from_file(fn), r, True, True, 'mesh of the results')
        io = MeshIO.any_from_filename(fn)
        check(io.read_last_step() == saved[-1], 'last step %s', io.read_last_step())
        got = io.read_time_stepper()
        check(tuple(np.asarray(g).item() for g in got) == (ts.t0, ts.t1, ts.dt, ts.n_step),
              'time stepper %s', got)
        steps, tt, nts = io.read_times()
        check(list(steps) == saved, 'steps %s instead of %s', list(steps), saved, key='steps')
        check((tt == times[saved]).all(), 'times')
        close(nts, (times[saved] - case['t0']) / case['len'], 1e-15, 1e-15, 'normalized times')
        ex = thm.extract_times(fn)
        check((ex[0] == steps).all() and (ex[1] == tt).all() and (ex[2] == nts).all(),
              'extract_times')
        check(len(ex[3]) == len(saved) and (ex[3][:-1] == np.diff(times[saved])).all()
              and ex[3][-1] == 0, 'time deltas')
        for step in range(n + 1):
            data = io.read_data(step)
            if step not in saved:
                check(data is None, 'data of the not saved step %d', step)
                continue
            check(set(data) == set(ref[step]), 'names of step %d: %s', step, sorted(data))
            for k, (mode, val, fname, dofs) in ref[step].items():
                g = data[k]
                if mode == 'custom':
                    check(eq_custom(g, val), 'custom data %s', k)
                    continue
                check(g.mode == mode and same(g.data, val) and g.data.dtype == val.dtype,
                      'step %d: data of %s (%s)', step, k, mode, key='data')
                check(g.field_name == fname, 'field name of %s', k)
                check(tuple(g.shape) == val.shape, 'shape of %s', k)
                if dofs is not None:
                    check(tuple(g.dofs) == dofs, 'DOF names %s', g.dofs)
        d0 = io.read_data(None)
        check(set(d0) == set(ref[saved[0]]), 'default step')
        # Histories.
        nv, ne = len(r['coors']), m.cmesh.n_el
        ext = []
        nothist = [s[0] for s in names if s[1] == 'custom']
        for name, mode, nco, dt, dofs in names:
            hmode, node = io.read_data_header(name)
            check(hmode == mode, 'header mode')
            if mode in ('custom', 'full'):
                continue
            lim = nv if mode == 'vertex' else ne
            ids = sorted(set(rs.randint(0, lim, 3).tolist()))
            th = io.read_time_history(node, ids)
            check(set(th) == set(ids), 'history keys')
            for i in ids:
                exp = np.array([ref[s][name][1][i] for s in saved])
                if mode == 'cell':
                    exp = exp[:, 0, :, 0]
                check(same(th[i], exp), 'history of %s in %d', name, i, key='history')
            ext.append((name, mode, ids))
        try:
            io.read_data_header('nonexistent?')
        except KeyError:
            pass
        else:
            check(False, 'header of non-existent data')
        vnames = [s[0] for s in names if s[0] not in nothist]
        if saved == list(range(n)) and vnames:
            th = io.read_variables_time_history(vnames, ts)
            for k in vnames:
                check(len(th[k]) == n and all(same(th[k][s], ref[s][k][1]) for s in saved),
                      'variable history of %s', k, key='variable history')
        ext = [e for e in ext if ' ' not in e[0] and ',' not in e[0]]
        if ext:
            incells = {}
            items = []
            for i, (name, mode, ids) in enumerate(ext):
                if mode == 'vertex' and case['incells'] and len(r['descs']) == 1:
                    conn = m.get_conn(r['descs'][0])
                    ids = sorted(set(np.random.RandomState(i).randint(0, ne, 2).tolist()))
                    incells[name] = {e: conn[e] for e in ids}
                    items.append('%s e %s' % (name, ' '.join('%d' % j for j in ids)))
                else:
                    items.append('%s %s %s' % (name, 'n' if mode == 'vertex' else 'e',
                                               ' '.join('%d' % j for j in ids)))
            ths, ts2 = thm.extract_time_history(fn, ', '.join(items), verbose=False)
            check((ts2.times == times[saved]).all(), 'times of extracted histories')
            exps, avgs = {}, {}
            for name, mode, ids in ext:
                def hist(i):
                    v = np.array([ref[s][name][1][i] for s in saved])
                    return v[:, 0, :, 0] if mode == 'cell' else v
                if name in incells:
                    exps[name] = {e: {int(j): hist(j) for j in c}
                                  for e, c in incells[name].items()}
                    avgs[name] = {e: np.mean([hist(j) for j in c], axis=0)
                                  for e, c in incells[name].items()}
                else:
                    exps[name] = {i: hist(i) for i in ids}
                    avgs[name] = exps[name]
            check(set(ths) == set(exps), 'extracted names')

            def cmp_nested(a, b, msg):
                check(set(a) == set(b), '%s: keys', msg)
                for k in b:
                    if isinstance(b[k], dict):
                        cmp_nested(a[k], b[k], msg)
                    else:
                        check(same(a[k], b[k]), '%s: %s', msg, k, key='extracted')
            cmp_nested(ths, exps, 'extracted history')
            if all(s[3] != 'int' for s in names):
                avg = thm.average_vertex_var_in_cells(ths)
                for name in avgs:
                    for k, v in avgs[name].items():
                        close(avg[name][k], v, 1e-6 if v.dtype.itemsize == 4 else 1e-12, 0,
                              'average of %s' % name, key='average', scale=np.abs(v).max() + 1e-30)
                cmp_nested(ths, exps, 'history after averaging')
            fn2 = os.path.join(tmp, 'hist.h5')
            thm.save_time_history(dict(ths), ts2, fn2)
            back = iou.read_dict_hdf5(fn2)
            check(same(back.pop('times'), times[saved]), 'times of the saved history')
            check(back.pop('dt') == ts.dt, 'time step of the saved history')
            for name in exps:
                for k, v in exps[name].items():
                    b = back[name]['%d' % k]
                    if isinstance(v, dict):
                        check(all(same(b['%d' % j], w) for j, w in v.items()), 'saved history')
                    else:
                        check(same(b, v), 'saved history of %s', name)
        # Dumping to VTK.
        if case['dump'] and all(' ' not in s[0] for s in names) and all(s[1] in ('vertex', 'cell') and s[2] in (1, m.dim) for s in names) \
           and all(s[3] in ('float', ) for s in names) and len(r['descs']) == 1:
            tr = os.path.join(tmp, 'dump')
            step0 = case['step0'] % n
            suf = thm.dump_to_vtk(fn, tr, step0=step0)
            exp = [s for s in saved if s >= step0]
            files = sorted(glob.glob(tr + '.*.vtk'))
            check(files == [tr + '.' + suf % s + '.vtk' for s in exp], 'dumped files %s',
                  [os.path.basename(f) for f in files])
            for s, f in zip(exp, files):
                compare(Mesh.from_file(f), r, True, True, 'dumped mesh')
                check_vtk(f, {k: v for k, v in ref[s].items()}, m, r)
    return {'nontrivial': len(saved) > 1 and len(names) > 0,
            'classes': [s[1] for s in names] + [s[3] for s in names] + [case['mesh']['kind']]}


def check_vtk(fn, ref, m, r):
    io = MeshIO.any_from_filename(fn)
    data = io.read_data(0)
    for k, (mode, val, _, _) in ref.items():
        check(k in data, 'missing data %s', k)
        g = data[k]
        check(g.mode == mode, 'mode of %s', k)
        v = val if mode == 'vertex' else val[:, 0, :, 0]
        if mode == 'cell':
            # The order of cells follows the kinds.
            td = max(int(d[0]) for d in r['descs'])
            ii = np.concatenate([m.get_conn(d, ret_cells=True)[1] for d in r['descs']
                                 if int(d[0]) == td])
            v = v[ii]
        gd = np.asarray(g.data)
        gd = gd.reshape(len(gd), -1)[:, :v.shape[1]]
        check(gd.shape == v.shape, 'shape of %s: %s instead of %s', k, gd.shape, v.shape,
              key='vtk shape')
        close(gd, v, 1e-10, 0, 'data of %s' % k, key='vtk data', scale=np.abs(v).max() + 1e-30)


def run_vtk(case):
    r = build(case)
    m = to_mesh(r)
    rs = np.random.RandomState(case['seed'])
    names = [(n, md, 1 if c == 1 else m.dim, 'float', d) for n, md, c, _, d in case['names']
             if md in ('vertex', 'cell') and ' ' not in n]
    out, ref = make_out(rs, r, names, 0)
    with Scratch() as tmp:
        fn = os.path.join(tmp, 'out' + case['suffix'])
        m.write(fn, io='auto', out=out)
        compare(Mesh.from_file(fn), r, True, True, 'mesh of the results')
        check_vtk(fn, ref, m, r)
    return {'nontrivial': len(names) > 1, 'classes': [case['suffix'], case['mesh']['kind']]
            + [s[1] for s in names]}


NAMES = ['u', 'p', 'dw', 'u.x', 'stress 1', 'T_2', 'real.q', 'a-b', 'V,z', 'w3', '1x']


@st.composite
def s_out(draw, item=None):
    mesh = draw(gen.cases(ALL if item == 'h5' else [k for k in ALL], n_ng=4, n_mat=4,
                          max_cells=3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    modes = ['vertex', 'cell', 'vertex', 'full', 'custom'] if item == 'h5' else ['vertex', 'cell']
    if draw(st.booleans()):
        modes = ['vertex', 'cell']
    dt = draw(st.sampled_from(['float', 'float', 'mixed']))
    d = {'float': ['float'], 'mixed': ['float', 'complex', 'int', 'float32']}[dt]
    dim = int(mesh['kind'][0])
    ns = [(n, draw(st.sampled_from(modes)), draw(st.sampled_from([1, 2, 3, dim, dim])),
           draw(st.sampled_from(d)), draw(st.booleans())) for n in names]
    n = draw(st.sampled_from([1, 2, 3, 4, 11, 12]))
    return dict(mesh=mesh, seed=draw(st.integers(0, 10 ** 6)), mag=1.0, off=0.0, facets=False,
                extra=0, names=ns, n_step=n, uneven=draw(st.booleans()),
                save=draw(st.lists(st.booleans(), min_size=1, max_size=5))
                if draw(st.booleans()) else [True],
                t0=draw(st.sampled_from([0.0, 1.5, -2.0])),
                len=draw(st.sampled_from([1.0, 1e-5, 3e4])), incells=draw(st.booleans()),
                dump=draw(st.booleans()), step0=draw(st.integers(0, 5)),
                suffix=draw(st.sampled_from(['.vtk', '.vtk', '.vtu'])))


# --- containers -----------------------------------------------------------------------------------

def make_value(spec, rs, pool):
    """Value of a specification: [kind, ...]."""
    k = spec[0]
    if k == 'none':
        return None
    if k == 'bool':
        return bool(spec[1])
    if k == 'int':
        return spec[1]
    if k == 'float':
        return spec[1]
    if k == 'complex':
        return complex(spec[1], 1.5)
    if k == 'str':
        return spec[1]
    if k == 'array':
        a = rs.randint(-50, 50, spec[1])
        return {'int': a.astype(np.int32), 'float': a / 7.0, 'complex': a / 3.0 + 2j,
                'bool': a > 0}[spec[2]]
    if k == 'sparse':
        a = sp.random(spec[1][0], spec[1][1], 0.5, random_state=rs)
        a = a.toarray() + 0.0
        a[0, 0] = 1.5
        a = a * (1j if spec[3] else 1)
        return {'csr': sp.csr_array, 'csc': sp.csc_array, 'csrm': sp.csr_matrix,
                'cscm': sp.csc_matrix}[spec[2]](a)
    if k == 'mesh':
        return gen.mesh(spec[1])[0]
    if k == 'list':
        return [make_value(s, rs, pool) for s in spec[1]]
    if k == 'tuple':
        return tuple(make_value(s, rs, pool) for s in spec[1])
    if k == 'dict':
        return {n: make_value(s, rs, pool) for n, s in spec[1]}
    if k == 'struct':
        return Struct(**{n: make_value(s, rs, pool) for n, s in spec[1]})
    if k == 'pickle':
        return {1, 2, spec[1]}
    if k in ('shared', 'cached', 'uncached'):
        if not pool:
            return None
        o = pool[spec[1] % len(pool)]
        return {'shared': lambda x: x, 'cached': iou.Cached, 'uncached': iou.Uncached}[k](o)
    raise ValueError(k)


AUTO = (Mesh, sp.csr_array, sp.csc_array, sp.csr_matrix, sp.csc_matrix)


def equal(a, b, shared, path='value'):
    """a: what was written, b: what was read, shared: objects to be shared or None."""
    if isinstance(a, iou.Cached):
        o = a.data
        if id(o) in shared:
            check(shared[id(o)] is b, '%s: the cached object is not shared', path,
                  key='shared')
            return
        shared[id(o)] = b
        return equal(o, b, shared, path)
    if isinstance(a, iou.Uncached):
        return equal(a.data, b, dict(), path)
    if isinstance(a, AUTO) and shared is not None:
        if id(a) in shared:
            check(shared[id(a)] is b, '%s: the object is not shared', path, key='shared')
        else:
            shared[id(a)] = b
    if a is None or isinstance(a, bool):
        return check(b is a, '%s: %r instead of %r', path, b, a)
    if isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), '%s: keys %s', path, b, key='dict')
        for k in a:
            equal(a[k], b[k], shared, path + '.' + k)
    elif isinstance(a, (list, tuple)):
        check(type(a) is type(b) and len(a) == len(b), '%s: sequence %s', path, type(b),
              key='sequence')
        for i, (x, y) in enumerate(zip(a, b)):
            equal(x, y, shared, '%s[%d]' % (path, i))
    elif isinstance(a, np.ndarray):
        check(same(a, b) and a.dtype == np.asarray(b).dtype, '%s: array %s %s', path,
              a.dtype, np.asarray(b).dtype, key='array')
    elif sp.issparse(a):
        check(sp.issparse(b) and a.shape == b.shape and a.format == b.format
              and a.dtype == b.dtype and same(a.toarray(), b.toarray()), '%s: sparse matrix',
              path, key='sparse')
    elif isinstance(a, Mesh):
        co, ng, cs, mi, ds = a._get_io_data()
        compare(b, dict(coors=np.array(co), ngroups=np.array(ng), conns=cs, mat_ids=mi, descs=ds),
                True, True, path)
    elif isinstance(a, Struct):
        check(type(b) is Struct, '%s: type %s', path, type(b))
        equal(a.to_dict(), b.to_dict(), shared, path)
    elif isinstance(a, str):
        check(b == a and isinstance(b, str), '%s: string %r instead of %r', path, b, a,
              key='string')
    else:
        check(b == a and type(np.asarray(b).item() if not isinstance(a, set) else b) is type(a),
              '%s: %r instead of %r', path, b, a, key='scalar')


def unmark(a):
    if isinstance(a, iou.DataMarker):
        return a.data
    if isinstance(a, list):
        return [unmark(x) for x in a]
    if isinstance(a, dict):
        return {k: unmark(x) for k, x in a.items()}
    return a


def has_marker(a):
    if isinstance(a, iou.DataMarker):
        return True
    if isinstance(a, (list, tuple)):
        return any(has_marker(x) for x in a)
    if isinstance(a, dict):
        return any(has_marker(x) for x in a.values())
    return False


def frozen_marker(a):
    """Is there a marker within a tuple or a Struct?"""
    if isinstance(a, tuple):
        return any(isinstance(x, iou.DataMarker) or frozen_marker(x) for x in a)
    if isinstance(a, list):
        return any(frozen_marker(x) for x in a)
    if isinstance(a, dict):
        return any(frozen_marker(x) for x in a.values())
    if isinstance(a, Struct):
        return frozen_marker(tuple(a.to_dict().values()))
    if isinstance(a, iou.DataMarker):
        return frozen_marker(a.data)
    return False


def run_container(case):
    rs = np.random.RandomState(case['seed'])
    pool = [make_value(s, rs, []) for s in case['pool']]
    vals = [make_value(s, rs, pool) for s in case['values']]
    pats = []
    with Scratch() as tmp:
        fn = os.path.join(tmp, 'c.h5')
        cache = {} if case['cache'] else None
        with pt.open_file(fn, mode='w') as fd:
            if not case['reopen']:
                for i, v in enumerate(vals):
                    iou.write_to_hdf5(fd, fd.root, 'v%d' % i, v, cache=cache)
        if case['reopen']:
            for i, v in enumerate(vals):
                with pt.open_file(fn, mode='r+') as fd:
                    iou.write_to_hdf5(fd, fd.root, 'v%d' % i, v, cache=cache)
        rcache = {} if case['cache'] else None
        shared = {}
        with pt.open_file(fn, mode='r') as fd:
            for i, v in enumerate(vals):
                b = iou.read_from_hdf5(fd, fd.get_node('/v%d' % i), cache=rcache)
                if not case['cache']:
                    shared = {}
                equal(v, b, shared, 'v%d' % i)
        # Unpacking of markers in written data.
        for v in vals:
            if isinstance(v, (dict, list)) and not frozen_marker(v):
                pats.append(unmark(v))
        with pt.open_file(os.path.join(tmp, 'd.h5'), mode='w') as fd:
            for i, v in enumerate([v for v in vals if isinstance(v, (dict, list))
                                    and not frozen_marker(v)]):
                iou.write_to_hdf5(fd, fd.root, 'v%d' % i, v, unpack_markers=True)
                check(not has_marker(v), 'a marker is left in the written data', key='markers')
                equal(pats[i], iou.read_from_hdf5(fd, fd.get_node('/v%d' % i)), None,
                      'unmarked v%d' % i)
    kinds = set()

    def walk(s):
        kinds.add(s[0])
        if s[0] in ('list', 'tuple'):
            [walk(x) for x in s[1]]
        if s[0] in ('dict', 'struct'):
            [walk(x) for _, x in s[1]]
    [walk(s) for s in case['values']]
    return {'nontrivial': len(kinds) > 2, 'classes': sorted(kinds)}


TEXT = st.text('abcXYZ 0_9.,/$\u00e1\u017e\u4e2d\n', max_size=8)
KEY = st.text('abcxyz_019', min_size=1, max_size=6)


def s_leaf():
    dims = st.lists(st.integers(1, 4), min_size=1, max_size=3)
    return st.one_of(
        st.just(['none']), st.booleans().map(lambda b: ['bool', b]),
        st.integers(-2 ** 62, 2 ** 62).map(lambda i: ['int', i]),
        st.floats(allow_nan=False).map(lambda f: ['float', f]),
        st.floats(-1e6, 1e6).map(lambda f: ['complex', f]),
        TEXT.map(lambda s: ['str', s]),
        st.tuples(dims, st.sampled_from(['int', 'float', 'complex', 'bool'])).map(
            lambda t: ['array', list(t[0]), t[1]]),
        st.tuples(st.integers(1, 4), st.integers(1, 4),
                  st.sampled_from(['csr', 'csc', 'csrm', 'cscm']), st.booleans()).map(
            lambda t: ['sparse', [t[0], t[1]], t[2], t[3]]),
        gen.cases(['2_3', '2_4', '2_mix', '3_4', '1_2'], max_cells=2).map(lambda c: ['mesh', c]),
        st.integers(0, 9).map(lambda i: ['pickle', i]),
        st.tuples(st.sampled_from(['shared', 'cached', 'cached', 'uncached']),
                  st.integers(0, 3)).map(list),
    )


def s_tree(leaf):
    def ext(s):
        items = st.lists(st.tuples(KEY, s), max_size=4, unique_by=lambda t: t[0]).map(
            lambda v: [list(t) for t in v])
        return st.one_of(st.lists(s, max_size=4).map(lambda v: ['list', v]),
                         st.lists(s, max_size=3).map(lambda v: ['tuple', v]),
                         items.map(lambda v: ['dict', v]),
                         items.map(lambda v: ['struct', [['q' + k, x] for k, x in v]]))
    return st.recursive(leaf, ext, max_leaves=10)


@st.composite
def s_container(draw, item=None):
    leaf = s_leaf()
    # Values shared by reference: containers, arrays, matrices and meshes.
    pool = draw(st.lists(s_tree(leaf.filter(lambda s: s[0] not in ('shared', 'cached',
                                                                  'uncached'))).filter(
        lambda s: s[0] in ('list', 'tuple', 'dict', 'array', 'sparse', 'mesh', 'struct')),
        max_size=3))
    vals = draw(st.lists(s_tree(leaf), min_size=1, max_size=4))
    return dict(pool=pool, values=vals, seed=draw(st.integers(0, 10 ** 6)),
                cache=draw(st.booleans()), reopen=draw(st.booleans()))


# --- dictionaries and matrices ----------------------------------------------------------------------

def run_dict(case):
    rs = np.random.RandomState(case['seed'])
    d = make_value(['dict', case['dict']], rs, [])
    mtx = make_value(case['mtx'], rs, [])
    with Scratch() as tmp:
        fn = os.path.join(tmp, 'd.h5')
        iou.write_dict_hdf5(fn, d)
        back = iou.read_dict_hdf5(fn)

        def cmp(a, b, path):
            check(set(b) == set(a), '%s: keys %s %s', path, sorted(b), sorted(a), key='dict keys')
            for k in a:
                if isinstance(a[k], dict):
                    cmp(a[k], b[k], path + '.' + k)
                elif isinstance(a[k], str):
                    check(a[k] == b[k], '%s.%s: %r %r', path, k, a[k], b[k], key='dict string')
                else:
                    check(same(a[k], b[k]), '%s.%s: %s %s', path, k, a[k], b[k], key='dict value')
        cmp(d, back, 'dict')
        fn = os.path.join(tmp, 'm.h5')
        iou.write_sparse_matrix_hdf5(fn, mtx)
        for of in (None, 'csr', 'csc'):
            b = iou.read_sparse_matrix_hdf5(fn, output_format=of)
            check(b.format == (of or mtx.format), 'format %s', b.format)
            check(b.shape == mtx.shape and same(b.toarray(), mtx.toarray())
                  and b.dtype == mtx.dtype, 'sparse matrix %s read as %s', mtx.format, of,
                  key='matrix')
    return {'nontrivial': len(d) > 1, 'classes': [case['mtx'][2]]}


@st.composite
def s_dict(draw, item=None):
    leaf = s_leaf().filter(lambda s: s[0] in ('int', 'float', 'str', 'array', 'complex'))
    keys = st.text('abc_01', min_size=1, max_size=5)

    def items(s):
        return st.lists(st.tuples(keys, s), min_size=0, max_size=4,
                        unique_by=lambda t: t[0]).map(lambda v: [list(t) for t in v])
    tree = st.recursive(leaf, lambda s: items(s).map(lambda v: ['dict', v]), max_leaves=8)
    mtx = ['sparse', [draw(st.integers(1, 5)), draw(st.integers(1, 5))],
           draw(st.sampled_from(['csr', 'csc', 'csrm', 'cscm'])), draw(st.booleans())]
    return dict(dict=draw(items(tree)), mtx=mtx, seed=draw(st.integers(0, 10 ** 6)))


# --- states of problems -------------------------------------------------------------------------------

def run_state(case):
    mesh, r = gen.mesh(case['mesh'])
    dim = mesh.dim
    dt = case['dtype']
    # The first cells in the direction of x are always included.
    mid = max(np.median(r['coors'][:, 0]),
              min(r['coors'][c, 0].max() for cs in r['conns'] for c in cs) + 1e-9)
    group = mesh.cmesh_tdim[mesh.dim].cell_groups[0]
    regions = {'Omega': 'all',
               'Om1': ('vertices in (x <= %.15e)' % mid if case['reg'] == 'v'
                       else 'cells of group %d' % group, 'cell')}
    fields, variables, equations = {}, {}, {}
    for i, (order, ncomp, reg) in enumerate(case['vars']):
        fields['f%d' % i] = (dt, {1: 1, 2: 'vector'}[ncomp], reg, order)
        variables['u%d' % i] = ('unknown field', 'f%d' % i, i)
        variables['v%d' % i] = ('test field', 'f%d' % i, 'u%d' % i)
        equations['e%d' % i] = 'dw_dot.i.%s(v%d, u%d) = 0' % (reg, i, i)
    conf = dict(regions=regions, fields=fields, variables=variables, equations=equations,
                integrals={'i': 2}, ebcs={}, materials={},
                solvers={'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {})},
                options={'nls': 'newton', 'ls': 'ls'})
    prob = pb.problem(case['mesh'], conf)
    prob.time_update()
    state = prob.get_initial_state()
    rs = np.random.RandomState(case['seed'])
    vec = rs.uniform(-1, 1, prob.equations.variables.adi.n_dof_total
                     if hasattr(prob.equations.variables.adi, 'n_dof_total')
                     else prob.equations.variables.di.n_dof_total)
    if dt == 'complex':
        vec = vec + 1j * rs.uniform(-1, 1, len(vec))
    state.set_state(vec, force=True)
    fill = case['fill']
    with Scratch() as tmp:
        fn = os.path.join(tmp, 'o' + case['suffix'])
        prob.save_state(fn, state, fill_value=fill, split_results_by=case['split'])
        names = ['u%d' % i for i in range(len(case['vars']))]
        exp = {}
        for n, (order, ncomp, reg) in zip(names, case['vars']):
            exp.setdefault({None: '', 'variable': '_' + n, 'region': '_' + reg}[case['split']],
                           []).append(n)
        files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(tmp, 'o*')))
        check(files == sorted('o%s%s' % (s, case['suffix']) for s in exp), 'saved files %s', files)
        for suf, vs in exp.items():
            f = os.path.join(tmp, 'o%s%s' % (suf, case['suffix']))
            m = Mesh.from_file(f)
            io = MeshIO.any_from_filename(f)
            data = io.read_data(0)
            for n in vs:
                order, ncomp, reg = case['vars'][int(n[1:])]
                var = state[n]
                nco = 1 if ncomp == 1 else dim
                region = prob.domain.regions[reg]
                full = np.zeros((mesh.n_nod if order else mesh.n_el, nco), dtype=var.dtype)
                sel = np.zeros(len(full), bool)
                if order:
                    vv = np.array(region.vertices)
                    full[vv] = np.asarray(var.evaluate_at(mesh.coors[vv])).reshape(len(vv), nco)
                    sel[vv] = True
                else:
                    cc = np.array(region.cells)
                    full[cc] = var().reshape(-1, nco)
                    sel[cc] = True
                if case['split'] is None:
                    x = mesh.coors
                    if fill is not None:
                        full[~sel] = fill
                    elif not sel.all():
                        d = var()
                        mn = d.real.min() + (1j * d.imag.min() if dt == 'complex' else 0)
                        full[~sel] = mn if case['checkmin'] and order == 1 and nco == 1 else full[~sel]
                        if not (case['checkmin'] and order == 1 and nco == 1):
                            full[~sel] = np.nan * (1 + 1j if dt == 'complex' else 1)
                    v = full
                else:
                    v = full[sel]
                    x = mesh.coors[sel] if order else None
                if x is not None:
                    check(m.coors.shape == x.shape, 'shape of the saved mesh')
                    close(m.coors, x, 1e-12, 1e-14, 'coordinates of the saved mesh')
                for part, val in ((('', v),) if dt == 'real' else
                                  (('real.', v.real), ('imag.', v.imag))):
                    check(part + n in data, 'missing %s in %s', part + n, sorted(data))
                    g = data[part + n]
                    gd = np.asarray(g.data)
                    gd = gd.reshape(len(gd), -1)
                    check(g.mode == ('vertex' if order else 'cell'), 'mode %s', g.mode)
                    if case['suffix'] == '.h5':
                        check(gd.shape == val.shape, 'shape of %s: %s %s', n, gd.shape, val.shape)
                    gd = gd[:, :val.shape[1]]
                    ok = np.isfinite(val)
                    check(gd.shape == val.shape, 'shape of %s', n)
                    if order == 0 and len(mesh.descs) > 1 and case['suffix'] != '.h5':
                        continue
                    close(gd[ok], val[ok], 1e-6, 1e-6, 'saved values of %s, order %d'
                          % (n, order), key='state')
    return {'nontrivial': len(names) > 1, 'classes': [str(case['split']), case['suffix'], dt]
            + ['o%d' % v[0] for v in case['vars']]}


@st.composite
def s_state(draw, item=None):
    kind = draw(st.sampled_from(['2_3', '2_4', '3_4', '3_8', '1_2']))
    mesh = draw(gen.cases([kind], max_cells=3, drop=0, n_mat=2))
    b = st.booleans()
    vs = draw(st.lists(st.tuples(st.sampled_from([1, 1, 2, 0]), st.sampled_from([1, 2]),
                                 st.sampled_from(['Omega', 'Om1'])), min_size=1, max_size=3))
    return dict(mesh=mesh, vars=[list(v) for v in vs], dtype=draw(st.sampled_from(
        ['real', 'real', 'complex'])), reg=draw(st.sampled_from(['v', 'g'])),
        seed=draw(st.integers(0, 10 ** 6)), fill=draw(st.sampled_from([None, 0.0, -7.5])),
        split=draw(st.sampled_from([None, 'variable', 'region'])), checkmin=draw(b),
        suffix=draw(st.sampled_from(['.h5', '.vtk'])))


SUBS = [Sub('results', s_out, run_h5, 60, 1000, items=['h5']),
        Sub('vtk', s_out, run_vtk, 50, 800, items=['vtk']),
        Sub('containers', s_container, run_container, 150, 3000),
        Sub('dicts', s_dict, run_dict, 80, 1500),
        Sub('states', s_state, run_state, 60, 1000)]
