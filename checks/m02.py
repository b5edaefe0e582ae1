"""M02: refinement subdivides the domain exactly and conformingly."""
import itertools

import numpy as np
import hypothesis.strategies as st

import gen
from fe import pick
from harness import Sub, check, close, Skip

from sfepy.discrete import Integral
from sfepy.discrete.fem import FEDomain, Field, Mesh
from sfepy.discrete.fem.refine_hanging import refine as refine_hanging

PROP = 'M02'
RULE = ('Cases: random meshes of every supported cell kind (ordered chains in 1D), up to two '
        'uniform levels; random subsets of cells of quadrilateral and hexahedral meshes (any cell '
        'rotations) refined with hanging nodes, in up to two steps, with fields of order 1-3.  '
        'Non-trivial: at least two cells, and for hanging nodes at least one level interface.')
ASSUMPTIONS = ['a cell is refined locally only if all cells sharing a vertex with it are of the '
               'same or a finer level (1-irregular meshes)',
               '1D meshes have sorted vertices (the code rejects others) and contiguous cells']


def polys(dim, order):
    return [e for e in itertools.product(range(order + 1), repeat=dim) if sum(e) <= order]


def supports(desc, cells):
    """Support sets of all vertices after a uniform refinement: vertices, edges, ..."""
    out = set()
    for c in cells:
        c = [int(i) for i in c]
        out.update(frozenset([i]) for i in c)
        if desc == '1_2':
            out.add(frozenset(c))
            continue
        out.update(frozenset((c[a], c[b])) for a, b in gen.EDGES[desc])
        if desc == '3_8':
            out.update(frozenset(c[i] for i in f) for f in gen.FACES[desc])
        if desc in ('2_4', '3_8'):
            out.add(frozenset(c))
    return out


N_CHILD = {'1_2': 2, '2_3': 4, '2_4': 4, '3_4': 8, '3_8': 8}
# Boundary facets of a refined facet.
N_SUB = {'1_2': 1, '2_3': 2, '2_4': 2, '3_4': 4, '3_8': 4}


def check_uniform(desc, coors, cells, groups, ncoors, ncells, ngroups):
    n = len(cells)
    check(len(ncells) == N_CHILD[desc] * n, 'number of children: %d of %d cells', len(ncells), n)
    sup = sorted(supports(desc, cells), key=sorted)
    mid = np.array([coors[list(s)].mean(0) for s in sup])
    check(len(ncoors) == len(sup), 'number of vertices %d, expected %d', len(ncoors), len(sup))
    s0 = max(np.abs(coors).max(), 1e-3)
    vs = []
    for x in ncoors:
        d = np.abs(mid - x).max(1)
        check(d.min() < 1e-12 * s0, 'a new vertex %s is not a midpoint', x)
        vs.append(sup[int(d.argmin())])
    check(len(set(vs)) == len(vs), 'repeated vertices')
    vsets = [frozenset(int(i) for i in c) for c in cells]
    count = [0] * n
    dim = int(desc[0])
    flat = coors.shape[1] == dim
    children = [[] for _ in range(n)]
    for ic, c in enumerate(ncells):
        un = frozenset().union(*[vs[i] for i in c])
        par = [k for k, s in enumerate(vsets) if un <= s]
        check(len(par) == 1, 'a child has %d parents', len(par))
        k = par[0]
        count[k] += 1
        children[k].append([vs[i] for i in c])
        check(ngroups[ic] == groups[k], 'group of a child %d: %s, parent has %s', ic,
              ngroups[ic], groups[k])
        if flat:
            jac = gen.cell_jacs(desc, ncoors[c][None])
            if desc[0] == '1':
                jac = ncoors[c[1]] - ncoors[c[0]]
            check((jac > 0).all(), 'a child is not positively oriented')
    check(all(c == N_CHILD[desc] for c in count), 'numbers of children: %s', count)
    # Every facet is shared by at most two cells, with opposite orientations.
    of = gen.boundary_facets([np.asarray(cells)], [desc])
    nf = gen.boundary_facets([np.asarray(ncells)], [desc])
    nb0 = sum(1 for v in of.values() if len(v) == 1)
    nb1 = sum(1 for v in nf.values() if len(v) == 1)
    check(nb1 == N_SUB[desc] * nb0, 'boundary facets after refinement: %d, before: %d', nb1, nb0)
    check(all(len(v) <= 2 for v in nf.values()), 'a facet shared by more than two cells')
    if flat and dim > 1:
        for v in nf.values():
            if len(v) == 2:
                a, b = v[0][3], v[1][3]
                check(any(tuple(a) == tuple(b[::-1][j:] + b[::-1][:j]) for j in range(len(b))),
                      'cells on the same side of a facet: %s %s', a, b)
    # Volumes.
    _, w0, _ = gen.physical_quad(coors, np.asarray(cells), desc, 4)
    _, w1, _ = gen.physical_quad(ncoors, np.asarray(ncells), desc, 4)
    if flat or desc in ('1_2', '2_3'):
        close(w1.sum(), w0.sum(), 1e-11, 0, 'total volume')
    # Standard sub-cells in the reference configuration.
    ref = gen.REF[desc]
    for k, ch in enumerate(children):
        loc = {int(v): ref[i] for i, v in enumerate(cells[k])}
        vol = []
        for c in ch:
            x = np.array([np.mean([loc[v] for v in s], axis=0) for s in c])
            if desc in ('2_4', '3_8'):
                ext = x.max(0) - x.min(0)
                check(np.abs(ext - 0.5).max() < 1e-12, 'a child is not a half-size sub-cell')
            _, w, _ = gen.physical_quad(x, np.arange(len(x))[None], desc, 2)
            vol.append(w.sum())
        check(np.abs(np.array(vol) / sum(vol) - 1.0 / N_CHILD[desc]).max() < 1e-12,
              'children of different sizes')


def data(dom, desc):
    m = dom.mesh
    return (np.array(m.coors), np.array(m.get_conn(desc)), np.array(m.cmesh.cell_groups))


def run_uniform(case):
    mc = case['mesh']
    desc = mc['kind']
    if desc == '1_2':
        r = gen.raw(mc)
        o = np.argsort(r['coors'][:, 0])
        n = len(o)
        conn = np.array([[i, i + 1] for i in range(n - 1)], dtype=np.int32)
        mesh = Mesh.from_data('m', r['coors'][o], None, [conn], [r['mat_ids'][0]], ['1_2'])
        dom = FEDomain('d', mesh)
    else:
        dom, r = gen.domain(mc)
    cur = dom
    for lev in range(case['levels']):
        c0 = data(cur, desc)
        if case['warm']:
            for d in range(cur.cmesh.tdim + 1):
                cur.cmesh.setup_connectivity(d, case['warm'] % (cur.cmesh.tdim + 1))
        new = cur.refine()
        c0b = data(cur, desc)
        for a, b in zip(c0, c0b):
            check((a == b).all(), 'the coarse mesh changed')
        c1 = data(new, desc)
        check(list(new.mesh.descs) == [desc], 'cell kind')
        check_uniform(desc, *c0, *c1)
        check(new.shape.n_el == len(c1[1]) and new.shape.n_nod == len(c1[0]), 'domain shape')
        cur = new
    return {'nontrivial': len(r['conns'][0]) > 1 or case['levels'] > 1,
            'classes': ['%s/l%d' % (desc, case['levels'])]}


def run_unsorted(case):
    """Unordered 1D meshes are rejected or refined correctly."""
    r = gen.raw(case['mesh'])
    mesh = Mesh.from_data('m', r['coors'], None, [r['conns'][0]], [r['mat_ids'][0]], ['1_2'])
    dom = FEDomain('d', mesh)
    x = r['coors'][:, 0]
    try:
        new = dom.refine()
    except ValueError:
        check(not (x[1:] >= x[:-1]).all(), 'an ordered mesh was rejected')
        return {'nontrivial': len(x) > 2}
    check((x[1:] >= x[:-1]).all(), 'an unordered 1D mesh was refined')
    return {'nontrivial': False}


def basis_at(field, pts):
    """Basis of a field in all cells at given reference points, (nc, np, nbf)."""
    integral = Integral('i', coors=pts, weights=np.ones(len(pts)), order='custom')
    field.clear_qp_basis()
    bf = field.eval_basis('v', 0, integral)
    field.clear_qp_basis()
    nc = field.econn.shape[0]
    if bf.ndim == 3:
        bf = np.broadcast_to(bf[:, 0], (nc, len(pts), bf.shape[-1]))
    else:
        bf = bf[:, :, 0]
    return bf


def run_hanging(case):
    mc = case['mesh']
    desc = mc['kind']
    dim = int(desc[0])
    dom, r = gen.domain(mc)
    n0 = len(r['conns'][0])
    sel = pick(case['seed'], n0, case['frac'] / 5.0)
    groups0 = np.concatenate(r['mat_ids'])
    c0 = data(dom, desc)
    level = [0] * n0
    n_int = 0
    subs = None
    cur = dom
    for step in range(case['steps']):
        cc = data(cur, desc)
        n = len(cc[1])
        if step == 0:
            flag = sel.astype(np.uint8)
        else:
            # Only cells with the same level everywhere around (geometrically).
            flag = np.zeros(n, np.uint8)
            rs = np.random.RandomState(case['seed'] + 5)
            cand = []
            # Vertices lying on a coarser cell.
            low = [k for k in range(n) if level[k] == 0]
            touch = set()
            for k in low:
                touch.update(vkeys(desc, cc[0], cc[1][k]))
            for k in range(n):
                if level[k] == 1 and not (set(keys(cc[0][cc[1][k]])) & touch):
                    cand.append(k)
            if not cand:
                break
            for k in cand:
                flag[k] = rs.rand() < 0.5
            if not flag.any():
                flag[cand[0]] = 1
        out = refine_hanging(cur, flag, subs=subs, ret_sub_cells=True)
        new, subs, sub_cells = out
        nc = data(new, desc)
        ref = np.where(flag)[0]
        coarse = np.where(flag == 0)[0]
        nch = N_CHILD[desc]
        check(len(nc[1]) == n + (nch - 1) * len(ref), 'number of cells after local refinement')
        check((nc[1][coarse] == cc[1][coarse]).all() if len(coarse) else True,
              'coarse cells changed')
        close(nc[0][:len(cc[0])], cc[0], 0, 0, 'original vertices')
        sub_cells = np.asarray(sub_cells).astype(int)
        check(sorted(sub_cells[:, 0].tolist()) == ref.tolist(), 'refined cells')
        all_ch = np.sort(sub_cells[:, 1:].ravel())
        check(len(np.unique(all_ch)) == nch * len(ref)
              and sorted(all_ch.tolist() + coarse.tolist()) == list(range(len(nc[1]))),
              'sub-cell indices')
        # Children of the refined cells (as a uniform refinement of these cells).
        chl = sub_cells[:, 1:].ravel()
        used0, inv0 = np.unique(cc[1][sub_cells[:, 0]], return_inverse=True)
        used1, inv1 = np.unique(nc[1][chl], return_inverse=True)
        check_uniform(desc, cc[0][used0], inv0.reshape(-1, 2 ** dim), cc[2][sub_cells[:, 0]],
                      nc[0][used1], inv1.reshape(-1, 2 ** dim), nc[2][chl])
        check((nc[2][coarse] == cc[2][coarse]).all(), 'groups of coarse cells')
        # Rows of sub_cells belong to their cell.
        for row in sub_cells:
            cen = nc[0][nc[1][row[1:]]].mean((0, 1))
            bf, _ = gen.ref_shape(desc, np.full((1, dim), 0.5))
            close(cen, cc[0][cc[1][row[0]]].mean(0), 1e-10, 1e-12, 'sub-cells of a cell')
        lv = np.zeros(len(nc[1]), int)
        lv[coarse] = np.array(level)[coarse]
        for row in sub_cells:
            lv[row[1:]] = level[row[0]] + 1
        level = lv.tolist()
        n_int += len(ref) < n
        cur = new
    nc = data(cur, desc)
    _, w0, _ = gen.physical_quad(c0[0], c0[1], desc, 4)
    _, w1, _ = gen.physical_quad(nc[0], nc[1], desc, 4)
    close(w1.sum(), w0.sum(), 1e-11, 0, 'total volume after local refinement')

    # A field on the mesh with hanging nodes.
    omega = cur.create_region('Omega', 'all')
    order = case['order']
    field = Field.from_args('u', np.float64, 'scalar', omega, approx_order=order)
    coors = np.array(field.get_coor())
    if subs is not None:
        field.substitute_dofs(subs)
    m = 4 if dim == 2 else 2
    g = np.linspace(0, 1, 2 * m + 1)
    pts = np.array(list(itertools.product(g, repeat=dim)))
    bf = basis_at(field, pts)
    econn = np.asarray(field.econn)
    gb, _ = gen.ref_shape(desc, pts)
    phys = np.einsum('pv,cvd->cpd', gb, nc[0][nc[1]])
    # Continuity of all basis functions at coinciding points.
    rs = np.random.RandomState(case['seed'] + 2)
    vec = rs.uniform(-1, 1, field.n_nod)
    val = np.einsum('cpb,cb->cp', bf, vec[econn])
    seen = {}
    sc = np.abs(nc[0]).max() + 1e-3
    shared = 0
    for c in range(len(nc[1])):
        for k, x in zip(keys(phys[c]), val[c]):
            if k in seen:
                shared += 1
                check(abs(seen[k] - x) < 1e-9, 'field is not continuous: %r vs %r at %s '
                      '(order %d)', seen[k], x, k, order)
            else:
                seen[k] = x
    # Polynomial reproduction by nodal interpolation.
    for e in polys(dim, order):
        def fun(x):
            return np.prod((x / sc) ** np.array(e), axis=-1)
        v = fun(coors)
        got = np.einsum('cpb,cb->cp', bf, v[econn])
        close(got, fun(phys), 1e-9, 1e-9, 'polynomial %s on a mesh with hanging nodes' % (e,))
    # Restoring the substituted DOFs gives the same function.
    if subs is not None:
        full = field.restore_substituted(vec)
        econn0 = np.asarray(field.econn0)
        field.restore_dofs()
        check((np.asarray(field.econn) == econn0).all(), 'restored connectivity')
        bf0 = basis_at(field, pts)
        close(np.einsum('cpb,cb->cp', bf0, full[econn0]), val, 1e-9, 1e-9,
              'function with restored DOFs')
    return {'nontrivial': n_int > 0 and n0 > 1 and subs is not None,
            'classes': ['%s/o%d/s%d' % (desc, order, case['steps'])]}


def keys(x):
    return [tuple(np.round(p * 1e7).astype(int).tolist()) for p in np.atleast_2d(x)]


def vkeys(desc, coors, cell):
    """Keys of the vertices, edge midpoints, ... of a cell."""
    x = coors[cell]
    out = list(x)
    for a, b in gen.EDGES[desc]:
        out.append(0.5 * (x[a] + x[b]))
    if desc == '3_8':
        out += [x[list(f)].mean(0) for f in gen.FACES[desc]]
    return keys(np.array(out))


KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8']


def st_uniform(item):
    kw = {}
    if item in ('2_3', '2_4'):
        kw['sdim'] = st.sampled_from([2, 2, 3])
    if item == '1_2':
        kw['drop'] = 0
        kw['aff'] = 0
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=6 if item == '1_2' else 2 if item[0] == '3' else 3,
                          **kw),
        'levels': st.integers(1, 2), 'warm': st.integers(0, 3)})


def st_hanging(item):
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=2 if item[0] == '3' else 4,
                          drop=st.sampled_from([0, 0, 0, 2, 5])),
        'seed': st.integers(0, 10 ** 6), 'frac': st.integers(1, 4),
        'steps': st.integers(1, 2),
        'order': st.integers(1, 3 if item[0] == '2' else 2)})


SUBS = [Sub('uniform', st_uniform, run_uniform, n=40, items=KINDS, shards=2),
        Sub('unsorted', lambda i: st.fixed_dictionaries({'mesh': gen.cases(['1_2'])}),
            run_unsorted, n=10, shards=1),
        Sub('hanging', st_hanging, run_hanging, n=150, items=['2_4', '3_8'], shards=8,
            examples=[{'mesh': {'kind': '3_8', 'shape': [2, 2, 1], 'seed': s, 'jit': 2, 'aff': 1,
                                'drop': 5}, 'seed': s, 'frac': 1, 'steps': 1, 'order': o}
                      for s, o in ((16, 1), (29, 2), (37, 3), (47, 1))]
            + [{'mesh': {'kind': '3_8', 'shape': [3, 3, 2], 'seed': s, 'jit': 1, 'aff': 1,
                         'drop': d}, 'seed': s, 'frac': 4, 'steps': 2, 'order': o}
               for s, o, d in ((1, 1, 0), (2, 2, 0), (3, 1, 2), (4, 1, 3), (5, 1, 2))])]
