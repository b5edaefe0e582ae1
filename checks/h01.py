"""H01: homogenization of periodic cells."""
import itertools
import json
import os
import shutil
import subprocess
import sys

import numpy as np
import hypothesis.strategies as st

from harness import Sub, Skip, Violation, check, close
from tm import SYM

import h01cell
import m04

from sfepy.base.base import Struct
from sfepy.homogenization.coefficients import Coefficients
from sfepy.homogenization.utils import (coor_to_sym, define_box_regions, get_box_volume,
                                        get_lattice_volume, integrate_in_time, iter_nonsym, iter_sym)

PROP = 'H01'
RULE = ('Cases: periodic cell (random layers or two-phase cell of quadrilaterals, triangles, or '
        'hexahedra, graded grid) x random anisotropic phases x field order x subset and order of '
        'coefficients and requirements x deformed cells x multi-processing. Oracle: closed-form '
        'laminates, Reuss and Voigt bounds, an independent periodic cell solution with the '
        'stiffness matrix reduced by coordinates. Non-trivial: two different phases.')
ASSUMPTIONS = ['cells are boxes with matching opposite sides']


def phases(case, dim):
    rs = np.random.RandomState(case['seed'] + 11)
    S = len(SYM[dim])
    out = []
    for i in range(case['nph']):
        a, b = rs.uniform(-1, 1, (S, S)), rs.uniform(-1, 1, (dim, dim))
        sc = [1, 10][i % 2]
        al = rs.uniform(-1, 1, S)
        out.append(dict(D=(sc * (a @ a.T + 0.4 * np.eye(S))).tolist(),
                        K=(sc * (b @ b.T + 0.4 * np.eye(dim))).tolist(), al=al.tolist()))
    return out


def grid(case):
    """Cell: coordinates, connectivity, phases of cells."""
    rs = np.random.RandomState(case['seed'] + 3)
    kind = case['kind']
    dim = int(kind[0])
    shape = case['shape'][:dim]
    org = rs.uniform(-1, 1, dim) * case['shift']
    xs = []
    for n in shape:
        h = rs.uniform(0.5, 1.5, n) if case['graded'] else np.full(n, 1.0 / n)
        xs.append(np.r_[0, np.cumsum(h)])
    xs = [x + o for x, o in zip(xs, org)]
    x = np.stack([g.ravel() for g in np.meshgrid(*xs, indexing='ij')], 1)
    idx = np.arange(len(x)).reshape([n + 1 for n in shape])
    conn, ph = [], []
    for cell in itertools.product(*[range(n) for n in shape]):
        if case['layers']:
            k = np.random.RandomState(case['seed'] + 17 + cell[case['ax'] % dim]).randint(case['nph'])
        else:
            k = rs.randint(case['nph'])
        c = cell
        if dim == 2:
            i, j = c
            q = [idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
            if kind == '2_4':
                conn.append(q)
                ph.append(k)
            else:
                d = rs.randint(2)
                conn += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if d else \
                    [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
                ph += [k, k]
        else:
            i, j, l = c
            conn.append([idx[i, j, l], idx[i + 1, j, l], idx[i + 1, j + 1, l], idx[i, j + 1, l],
                         idx[i, j, l + 1], idx[i + 1, j, l + 1], idx[i + 1, j + 1, l + 1],
                         idx[i, j + 1, l + 1]])
            ph.append(k)
    return x, np.array(conn), np.array(ph), xs


def cell_data(case):
    x, conn, ph, xs = grid(case)
    dim = x.shape[1]
    pm = phases(case, dim)
    return dict(kind=case['kind'], coors=x.tolist(), conn=conn.tolist(), phase=ph.tolist(),
                phases=pm, order=case['order'], coefs=case['coefs'], perm=case['perm'],
                vol=case['vol'], only=case['only'], micro=case['micro'], seed=case['seed'],
                scale=case.get('scale', 1))


def reference(data, x=None):
    """Independent solution: the energies of periodic fields."""
    from sfepy.discrete.fem import Mesh, FEDomain, Field
    from sfepy.discrete import FieldVariable, Material, Integral
    from sfepy.terms import Term
    x = np.asarray(data['coors'] if x is None else x)
    dim = x.shape[1]
    conn = np.asarray(data['conn'], dtype=np.int32)
    mesh = Mesh.from_data('r', x.copy(), None, [conn], [np.zeros(len(conn), dtype=np.int32)],
                          [data['kind']])
    dom = FEDomain('r', mesh)
    om = dom.create_region('Omega', 'all')
    it = Integral('i', order=2 * data['order'])
    ph = data['phase']
    out = {}

    def matrix(f, name, par):
        u = FieldVariable('u', 'unknown', f)
        v = FieldVariable('v', 'test', f, primary_var_name='u')
        # Cell-wise constant materials.
        vals = np.array([data['phases'][k][par] for k in ph])

        def fun(ts, coors, mode=None, **kw):
            if mode == 'qp':
                nq = len(coors) // len(vals)
                return {par: np.repeat(vals, nq, axis=0)}
        m = Material('m', function=fun)
        t = Term.new('%s(m.%s, v, u)' % (name, par), it, om, m=m, v=v, u=u)
        from sfepy.discrete import Equations, Equation, Problem
        pb = Problem('p', equations=Equations([Equation('e', t)]))
        pb.time_update()
        pb.update_materials()
        u.set_data(np.zeros(u.n_dof))
        K, _ = t.evaluate(mode='weak', diff_var='u')
        n = u.n_dof
        dc = f.get_econn('cell', om)
        nc = f.n_components
        A = np.zeros((n, n))
        for c in range(len(dc)):
            dofs = (nc * dc[c][None, :] + np.arange(nc)[:, None]).ravel()
            A[np.ix_(dofs, dofs)] += K[c, 0]
        return A

    lo, hi = x.min(0), x.max(0)
    V = np.prod(hi - lo)

    def periodic(co, nc):
        # Nodes at the opposite sides are identified.
        y = (co - lo) / (hi - lo)
        y[np.abs(y - 1) < 1e-8] = 0
        _, inv = np.unique(np.round(y, 7), axis=0, return_inverse=True)
        inv = inv.ravel()
        n = inv.max() + 1
        P = np.zeros((len(co) * nc, n * nc))
        for i, j in enumerate(inv):
            for k in range(nc):
                P[nc * i + k, nc * j + k] = 1
        return P

    def solve(f, A, pis):
        P = periodic(f.get_coor(), f.n_components)
        B = P.T @ A @ P
        X = np.linalg.lstsq(B, -P.T @ A @ pis, rcond=1e-11)[0]
        Y = pis + P @ X
        return Y, Y.T @ A @ Y / V
    fu = Field.from_args('fu', np.float64, 'vector', om, approx_order=data['order'])
    fp = Field.from_args('fp', np.float64, 'scalar', om, approx_order=data['order'])
    co = fu.get_coor()
    pis = []
    for i, j in SYM[dim]:
        w = np.zeros((len(co), dim))
        w[:, i] = co[:, j]
        pis.append(w.ravel())
    pis = np.array(pis).T
    Y, out['D'] = solve(fu, matrix(fu, 'dw_lin_elastic', 'D'), pis)
    Q, out['A'] = solve(fp, matrix(fp, 'dw_diffusion', 'K'), fp.get_coor())
    # Averages of a Biot-like tensor.
    u = FieldVariable('u', 'parameter', fu, primary_var_name='(set-to-None)')
    al = np.array([data['phases'][k]['al'] for k in ph])
    B = []
    for r in range(Y.shape[1]):
        u.set_data(np.ascontiguousarray(Y[:, r]))
        e = u.evaluate('cauchy_strain', om, it, 'cell')
        geo, _ = fu.get_mapping(om, it, 'cell')
        B.append(np.sum(geo.det[..., 0] * np.einsum('cqi,ci->cq', e[..., 0], al)[..., None]) / V)
    out['B'] = np.array(B)
    vol = np.zeros(len(data['phases']))
    geo, _ = fu.get_mapping(om, it, 'cell')
    for c, k in enumerate(ph):
        vol[k] += geo.volume[c, 0, 0, 0]
    out['vol'], out['V'] = vol, V
    return out


def laminate(C, w, N):
    """Effective matrix of layers: C (k, n, n), weights, indices of continuous fluxes."""
    n = C.shape[1]
    T = [i for i in range(n) if i not in N]
    inv = np.array([np.linalg.inv(c[np.ix_(N, N)]) for c in C])
    NT = np.array([c[np.ix_(N, T)] for c in C])
    TT = np.array([c[np.ix_(T, T)] for c in C])
    av = lambda a: np.einsum('k,kij->ij', w, a)
    e = np.linalg.inv(av(inv))
    s = av(inv @ NT)
    out = np.zeros((n, n))
    out[np.ix_(N, N)] = e
    out[np.ix_(N, T)] = e @ s
    out[np.ix_(T, N)] = (e @ s).T
    out[np.ix_(T, T)] = av(TT - NT.transpose(0, 2, 1) @ inv @ NT) + s.T @ e @ s
    return out


def is_psd(a, tol):
    return np.linalg.eigvalsh(0.5 * (a + a.T)).min() > -tol


def verify(data, coefs, case, x=None, tag=''):
    """Compare all the computed coefficients."""
    ref = reference(data, x)
    dim = len(data['coors'][0])
    S = len(SYM[dim])
    V = ref['V']
    if data['vol'] in ('value', 'other'):
        V = np.prod(np.ptp(data['coors'], axis=0)) * (2 if data['vol'] == 'other' else 1)
    f = ref['V'] / V
    exp = {}
    A, D, B = ref['A'] * f, ref['D'] * f, ref['B'] * f
    exp['A'], exp['D'], exp['B'] = A, D, B
    c2s = [coor_to_sym(i, j, dim) for i in range(dim) for j in range(dim)]
    exp['Dn'] = D[np.ix_(c2s, c2s)]
    exp['Ae'] = 2 * A + A.T
    exp['As'] = 2 * A
    exp['Ao'] = A[0, 0]
    exp['An'] = A[:, 0]
    exp['Apar'] = A.diagonal()
    # The volume fractions and volumes are of the region of the first used phase.
    vf = ref['vol'][min(data['phase'])]
    exp['Ds'] = D[:, 0]
    for k, v in coefs.items():
        if k.startswith('Volume') or k == 'save_names':
            continue
        if k == 'F':
            close(v['fraction_YF'], vf / V, 1e-9, 1e-12, tag + 'volume fraction', key='F')
            close(v['volume_YF'], vf, 1e-9, 1e-12, tag + 'volume', key='F')
            continue
        if k == 'N':
            check(v == 0, 'CoefNone')
            continue
        base = 'vf' if k == 'O' else k
        e = exp[base] if base != 'vf' else vf / V
        sc = np.abs(e).max() + 1e-3
        close(np.asarray(v), e, 1e-8, 1e-9 * max(sc, np.abs(A).max(), np.abs(D).max()),
              tag + 'coefficient ' + k, key='coef-' + k)
    if x is None:
        # Closed forms and bounds.
        w = ref['vol'] / ref['V']
        for k, p in (('A', 'K'), ('D', 'D')):
            if k not in coefs:
                continue
            got = np.asarray(coefs[k]) / f
            C = np.array([q[p] for q in data['phases']])
            close(got, got.T, 1e-9, 1e-9 * np.abs(got).max(), 'symmetry of ' + k, key='symmetry')
            voigt = np.einsum('k,kij->ij', w, C)
            reuss = np.linalg.inv(np.einsum('k,kij->ij', w, np.linalg.inv(C)))
            t = 1e-8 * np.abs(voigt).max()
            check(is_psd(voigt - got, t), 'Voigt bound of ' + k, key='voigt')
            check(is_psd(got - reuss, t), 'Reuss bound of ' + k, key='reuss')
            if case['layers']:
                ax = case['ax'] % dim
                N = [ax] if k == 'A' else [i for i, s in enumerate(SYM[dim]) if ax in s]
                close(got, laminate(C, w, N), 1e-8, t, 'laminate ' + k, key='laminate')
            if len(np.unique(data['phase'])) == 1:
                close(got, C[data['phase'][0]], 1e-8, t, 'homogeneous ' + k, key='homogeneous')


def to_plain(v):
    if isinstance(v, dict):
        return {k: to_plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [to_plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    return v


def run_cell(case):
    data = cell_data(case)
    with m04.Scratch() as path:
        coefs, deps, xs = h01cell.compute(data, path, multi=False)
        plain = {k: v for k, v in coefs.to_dict().items()}
        want = set(data['only'] or data['coefs'])
        names = {k for k in plain if not k.startswith('Volume') and k != 'save_names'}
        check(names >= want and names <= set(data['coefs']) | {'A', 'D'},
              'coefficients %s, %s requested', sorted(names), sorted(want), key='names')
        if case['micro']:
            for im, x in enumerate(xs):
                verify(data, {k: v[im] for k, v in plain.items() if isinstance(v, list)},
                       case, x, 'micro %d: ' % im)
        else:
            verify(data, plain, case)
        # Stored coefficients.
        new = Coefficients.from_file_hdf5(os.path.join(path, 'coefs.h5')).to_dict()
        check(set(new) == set(plain), 'stored coefficients %s', sorted(new), key='stored')
        for k in names:
            if isinstance(plain[k], dict):
                for kk in plain[k]:
                    close(np.squeeze(new[k][kk]), np.squeeze(plain[k][kk]), 0, 0, 'stored')
            else:
                close(np.asarray(new[k], dtype=float), np.asarray(plain[k], dtype=float), 0, 0,
                      'stored coefficient ' + k, key='stored')
    return {'nontrivial': len(set(data['phase'])) > 1,
            'classes': [case['kind'], 'o%d' % case['order'], 'layers' if case['layers'] else 'random',
                        'micro' if case['micro'] else 'single', 'vol-' + case['vol']] + case['coefs']}


def cell_strategy(item=None):
    @st.composite
    def mk(draw):
        kind = draw(st.sampled_from(['2_4', '2_4', '2_3', '3_8']))
        order = draw(st.integers(1, 2)) if kind != '3_8' else 1
        mx = 3 if kind == '3_8' else 4
        coefs = draw(st.permutations(h01cell.COEFS))
        coefs = list(coefs[:draw(st.integers(1, len(coefs)))])
        # 'As', 'Ae' require 'A'.
        if {'As', 'Ae'} & set(coefs) and 'A' not in coefs:
            coefs.insert(draw(st.integers(0, len(coefs))), 'A')
        only = draw(st.sampled_from([0, 0, 1]))
        micro = draw(st.sampled_from([0, 0, 0, 2]))
        if micro:
            coefs = [c for c in coefs if c not in ('F', 'N', 'As', 'Ae')] or ['A']
        return dict(
            kind=kind, shape=[draw(st.integers(2, mx)) for _ in range(3)],
            graded=draw(st.integers(0, 1)), shift=draw(st.integers(0, 1)),
            layers=draw(st.integers(0, 1)), ax=draw(st.integers(0, 2)), nph=draw(st.integers(1, 3)),
            order=order, coefs=coefs, perm=draw(st.integers(0, 10 ** 6)),
            vol=draw(st.sampled_from(['expr', 'value', 'other', 'volumes'])),
            only=[coefs[0]] if only else [], micro=micro, seed=draw(st.integers(0, 10 ** 6)))
    return mk()


# --- multi-processing -------------------------------------------------------------------------

def run_multi(case):
    datas = [cell_data(c) for c in case['cells']]
    with m04.Scratch() as path:
        with open(os.path.join(path, 'in.json'), 'w') as fd:
            json.dump(datas, fd)
        name = os.path.join(path, 'out.json')
        for k in range(3):
            # Overloaded machines may break the spawning of workers.
            sub = os.path.join(path, 's%d' % k)
            os.makedirs(sub)
            shutil.copy(os.path.join(path, 'in.json'), sub)
            r = subprocess.run([sys.executable, h01cell.__file__, sub], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=200)
            name = os.path.join(sub, 'out.json')
            if os.path.exists(name):
                break
        else:
            raise Violation('multi-processing failed: %s' % r.stdout.decode()[-3500:])
        with open(name) as fd:
            outs = json.load(fd)
    for c, data, out in zip(case['cells'], datas, outs):
        check(out['multi'], 'multi-processing not used')
        coefs = out['coefs']
        if c['micro']:
            for im, x in enumerate(out['coors']):
                verify(data, {k: v[im] for k, v in coefs.items() if isinstance(v, list) and not
                              k.startswith('Volume')}, c, x, 'micro %d: ' % im)
        else:
            verify(data, coefs, c, None, 'multi-processing: ')
    return {'nontrivial': True, 'classes': ['micro' if c['micro'] else 'single'
                                            for c in case['cells']]}


def multi_strategy(item=None):
    @st.composite
    def mk(draw):
        return dict(cells=[draw(cell_strategy()) for _ in range(3)])
    return mk()


# --- utilities --------------------------------------------------------------------------------

def run_utils(case):
    rs = np.random.RandomState(case['seed'])
    dim = case['dim']
    a = rs.uniform(-2, 2, dim)
    b = a + rs.uniform(0.1, 3, dim)
    if case['half']:
        a, b = -b + a, b - a
        close(get_box_volume(dim, b), np.prod(b - a), 1e-12, 0, 'box volume')
        regs = define_box_regions(dim, b)
    else:
        close(get_box_volume(dim, a, b), np.prod(b - a), 1e-12, 0, 'box volume')
        regs = define_box_regions(dim, a, b)
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh.mesh_generators import gen_block_mesh
    mesh = gen_block_mesh(b - a, [case['n'] + 1] * dim, 0.5 * (a + b), verbose=False)
    dom = FEDomain('d', mesh)
    x = mesh.coors
    tol = 1e-8
    lo, hi = np.abs(x - a) < tol, np.abs(x - b) < tol
    sides = {'Left': lo[:, 0], 'Right': hi[:, 0], 'Corners': (lo | hi).all(1)}
    if dim == 2:
        sides.update(Bottom=lo[:, 1], Top=hi[:, 1])
    else:
        sides.update(Near=lo[:, 1], Far=hi[:, 1], Bottom=lo[:, 2], Top=hi[:, 2])
    check(set(sides) == set(regs), 'names of regions')
    for k, (sel, kind) in regs.items():
        r = dom.create_region(k, sel, kind)
        check(np.array_equal(r.vertices, np.where(sides[k])[0]), 'region %s', k, key='box-regions')
    axes = rs.uniform(-1, 1, (dim, dim))
    vol = abs(np.linalg.det(axes))
    if dim == 3:
        got = get_lattice_volume(axes)
        close(abs(got), vol, 1e-10, 1e-12, 'lattice volume')
        if np.linalg.det(axes) > 0:
            close(got, vol, 1e-10, 1e-12, 'lattice volume')
    else:
        close(get_lattice_volume(np.c_[axes, np.zeros(2)]), vol, 1e-10, 1e-12, 'lattice volume',
              key='lattice-2d')
    check(list(iter_sym(dim)) == [tuple(s) for s in SYM[dim]], 'iter_sym')
    check(list(iter_nonsym(dim)) == list(itertools.product(range(dim), repeat=2)), 'iter_nonsym')
    for i, j in itertools.product(range(dim), repeat=2):
        check(SYM[dim][coor_to_sym(i, j, dim)] in ((i, j), (j, i)) or
              tuple(SYM[dim][coor_to_sym(i, j, dim)]) in ((i, j), (j, i)), 'coor_to_sym')
    t = np.cumsum(np.r_[0, rs.uniform(0.1, 1, case['n'])])
    c = rs.uniform(-1, 1, (len(t), 2, 3))
    ts = Struct(times=t)
    dt = np.diff(t)
    close(integrate_in_time(c, ts), sum(d * v for d, v in zip(dt, c)), 1e-12, 1e-12, 'forward')
    close(integrate_in_time(c, ts, 'trapezoid'), sum(d * (v + w) / 2 for d, v, w in
                                                    zip(dt, c, c[1:])), 1e-12, 1e-12, 'trapezoid')
    return True


SUBS = [
    Sub('cell', cell_strategy, run_cell, 140, 4000),
    Sub('multi', multi_strategy, run_multi, 6, 60, case_timeout=250),
    Sub('utils', lambda item=None: st.fixed_dictionaries(dict(
        seed=st.integers(0, 10 ** 6), dim=st.integers(2, 3), n=st.integers(1, 3),
        half=st.integers(0, 1))), run_utils, 60, 1500),
]
