"""Mesh generation independent of sfepy: structured cells, jittered, permuted, punctured."""
import itertools

import numpy as np

# Reference cells (sfepy's documented vertex numbering).
REF = {
    '1_2': np.array([[0.], [1.]]),
    '2_3': np.array([[0., 0], [1, 0], [0, 1]]),
    '2_4': np.array([[0., 0], [1, 0], [1, 1], [0, 1]]),
    '3_4': np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    '3_6': np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]]),
    '3_8': np.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                     [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]),
}
EDGES = {
    '1_2': [(0, 1)],
    '2_3': [(0, 1), (1, 2), (2, 0)],
    '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    '3_4': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    '3_6': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)],
    '3_8': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4),
            (0, 4), (1, 5), (2, 6), (3, 7)],
}
FACES = {
    '3_4': [(0, 2, 1), (0, 3, 2), (0, 1, 3), (1, 2, 3)],
    '3_6': [(0, 2, 1), (0, 3, 5, 2), (0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 5)],
    '3_8': [(0, 3, 2, 1), (0, 4, 7, 3), (0, 1, 5, 4), (4, 5, 6, 7), (1, 2, 6, 5),
            (3, 7, 6, 2)],
}


def facets(desc):
    """Facets (as local vertex tuples, outward oriented)."""
    if desc[0] == '1':
        return [(0,), (1,)]
    if desc[0] == '2':
        return EDGES[desc]
    return FACES[desc]


def _rotations(desc):
    """Orientation-preserving symmetries of the reference cell as vertex permutations."""
    ref = REF[desc]
    n, dim = ref.shape
    if desc == '1_2':
        return [(0, 1)]
    edges = set(frozenset(e) for e in EDGES[desc])
    out = []
    if desc in ('3_8',):
        cand = []
        # Build from the images of vertex 0 and its three neighbours.
        nb = {v: [w for w in range(n) if frozenset((v, w)) in edges] for v in range(n)}
        c = ref - 0.5
        for v in range(n):
            for p in itertools.permutations(nb[v]):
                o = c[v]
                m = np.array([c[p[0]] - o, c[p[1]] - o, c[p[2]] - o]).T
                if np.linalg.det(m) > 0.5:
                    img = o + ref @ m.T
                    perm = tuple(int(np.abs(c - x).sum(1).argmin()) for x in img)
                    cand.append(perm)
        # Reference axes are vertices 1, 3, 4 from 0.
        return sorted(set(cand))
    for p in itertools.permutations(range(n)):
        if not all(frozenset((p[a], p[b])) in edges for a, b in EDGES[desc]):
            continue
        # Affine image must preserve the orientation.
        if desc == '2_4':
            ii = [0, 1, 3]
        elif desc == '3_6':
            ii = [0, 1, 2, 3]
        else:
            ii = list(range(dim + 1))
        x = ref[[p[i] for i in ii]]
        if np.linalg.det(x[1:] - x[0]) > 0:
            out.append(p)
    return out


ROT = {d: _rotations(d) for d in REF}
MIRROR = {'1_2': (1, 0), '2_3': (0, 2, 1), '2_4': (3, 2, 1, 0), '3_4': (3, 1, 2, 0),
          '3_8': (4, 5, 6, 7, 0, 1, 2, 3), '3_6': (3, 4, 5, 0, 1, 2)}


def _grid(shape):
    """Vertices of a box grid, and an index function."""
    nv = [s + 1 for s in shape]
    idx = np.arange(int(np.prod(nv))).reshape(nv)
    g = np.meshgrid(*[np.arange(n, dtype=float) for n in nv], indexing='ij')
    coors = np.stack([a.ravel() for a in g], axis=1)
    return coors, idx


def _box_cells(shape, idx):
    dim = len(shape)
    out = []
    for c in itertools.product(*[range(s) for s in shape]):
        if dim == 1:
            i, = c
            out.append([idx[i], idx[i + 1]])
        elif dim == 2:
            i, j = c
            out.append([idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]])
        else:
            i, j, k = c
            out.append([idx[i, j, k], idx[i + 1, j, k], idx[i + 1, j + 1, k], idx[i, j + 1, k],
                        idx[i, j, k + 1], idx[i + 1, j, k + 1], idx[i + 1, j + 1, k + 1],
                        idx[i, j + 1, k + 1]])
    return np.array(out, dtype=np.int64).reshape(-1, 2 ** dim)


_KUHN = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def cell_jacs(desc, x):
    """Jacobian determinants at the vertices; x (nc, nv, dim)."""
    ref = REF[desc]
    dim = ref.shape[1]
    n = ref.shape[0]
    out = []
    for v in range(n):
        nb = [b if a == v else a for a, b in EDGES[desc] if v in (a, b)][:dim]
        d = np.stack([x[:, w] - x[:, v] for w in nb], axis=2)
        r = np.stack([ref[w] - ref[v] for w in nb], axis=1)
        if x.shape[2] == dim:
            out.append(np.linalg.det(d) / np.linalg.det(r))
        else:
            g = np.einsum('cik,cil->ckl', d, d)
            out.append(np.sqrt(np.abs(np.linalg.det(g))) / abs(np.linalg.det(r)))
    return np.stack(out, axis=1)


def raw(case):
    """case: dict(kind, shape, seed, jit, aff, perm, rot, drop, inv, sdim) -> arrays."""
    kind, shape = case['kind'], list(case['shape'])
    rs = np.random.RandomState(case.get('seed', 0) % (2 ** 32))
    if kind == '2_mix':
        shape = shape[:2]
    dim = int(kind[0])
    shape = shape[:dim]
    coors, idx = _grid(shape)
    box = _box_cells(shape, idx)
    cells = {}
    if kind in ('1_2', '2_4', '3_8'):
        cells[kind] = box
    elif kind == '2_3':
        out = []
        for c in box:
            if rs.rand() < 0.5 and case.get('rot', True):
                out += [c[[0, 1, 2]], c[[0, 2, 3]]]
            else:
                out += [c[[0, 1, 3]], c[[1, 2, 3]]]
        cells[kind] = np.array(out)
    elif kind == '2_mix':
        t, q = [], []
        for i, c in enumerate(box):
            if rs.rand() < 0.5 or (i == 0):
                t += [c[[0, 1, 2]], c[[0, 2, 3]]]
            else:
                q.append(c)
        cells['2_3'] = np.array(t)
        if len(q):
            cells['2_4'] = np.array(q)
    elif kind == '3_4':
        cells[kind] = np.concatenate([box[:, list(k)] for k in _KUHN])
    elif kind == '3_6':
        cells[kind] = np.concatenate([box[:, [0, 1, 2, 4, 5, 6]], box[:, [0, 2, 3, 4, 6, 7]]])
    drop = case.get('drop', 0)
    if drop:
        for d in list(cells):
            keep = rs.rand(len(cells[d])) >= drop / 10.0
            if not keep.any():
                keep[rs.randint(len(keep))] = True
            cells[d] = cells[d][keep]
        used = np.unique(np.concatenate([c.ravel() for c in cells.values()]))
        new = -np.ones(len(coors), dtype=np.int64)
        new[used] = np.arange(len(used))
        coors = coors[used]
        cells = {d: new[c] for d, c in cells.items()}
    # Jitter, affine map.
    jit = case.get('jit', 0)
    if jit:
        amp = 0.06 * jit
        pert = rs.uniform(-1, 1, coors.shape)
        if kind == '3_6':
            # Keep prisms: move vertical lines rigidly.
            pert = np.sin(coors @ rs.uniform(1, 5, (3, 3)) + rs.uniform(0, 6, 3))
            pert[:, :2] = np.sin(coors[:, :2] @ rs.uniform(1, 5, (2, 2)))
            pert[:, 2] = np.sin(coors[:, 2] * 3.1)
        while amp > 1e-3:
            x = coors + amp * pert
            if all((cell_jacs(d, x[c]) > 0.2).all() for d, c in cells.items()):
                coors = x
                break
            amp *= 0.7
    coors = coors / max(shape)
    sdim = case.get('sdim', dim)
    if sdim > dim:
        coors = np.c_[coors, np.zeros((len(coors), sdim - dim))]
        if case.get('bend', 1):
            coors[:, dim] += 0.3 * np.sin(coors[:, :dim].sum(1) * 2.0)
    if case.get('aff', 0):
        while 1:
            m = np.eye(sdim) * rs.uniform(0.6, 1.6) + rs.uniform(-0.45, 0.45, (sdim, sdim))
            if np.linalg.det(m) > 0.1:
                break
        coors = coors @ m.T + rs.uniform(-1, 1, sdim)
    # Permutations.
    if case.get('rot', True):
        for d, c in cells.items():
            k = rs.randint(len(ROT[d]), size=len(c))
            p = np.array(ROT[d])[k]
            cells[d] = np.take_along_axis(c, p, axis=1)
    if case.get('inv', 0):
        for d, c in cells.items():
            w = rs.rand(len(c)) < 0.4
            c = c.copy()
            c[w] = c[w][:, list(MIRROR[d])]
            cells[d] = c
    if case.get('perm', True):
        p = rs.permutation(len(coors))
        q = np.argsort(p)
        coors = coors[p]
        cells = {d: q[c][rs.permutation(len(c))] for d, c in cells.items()}
    ngroups = rs.randint(0, case.get('n_ng', 4), len(coors))
    mats = {d: rs.randint(0, case.get('n_mat', 3), len(c)) for d, c in cells.items()}
    descs = sorted(cells)
    return dict(coors=np.ascontiguousarray(coors), ngroups=ngroups.astype(np.int32),
                descs=descs, conns=[np.ascontiguousarray(cells[d].astype(np.int32))
                                    for d in descs],
                mat_ids=[mats[d].astype(np.int32) for d in descs])


def mesh(case, name='m'):
    from sfepy.discrete.fem import Mesh
    r = raw(case)
    m = Mesh.from_data(name, r['coors'].copy(), r['ngroups'].copy(),
                       [c.copy() for c in r['conns']], [c.copy() for c in r['mat_ids']],
                       list(r['descs']))
    return m, r


def domain(case, name='d'):
    from sfepy.discrete.fem import FEDomain
    m, r = mesh(case)
    return FEDomain(name, m), r


def cases(kinds, max_cells=None, **kw):
    """Strategy of mesh cases.  kw: fixed entries or strategies."""
    import hypothesis.strategies as st
    mx = {'1_2': 6, '2_3': 4, '2_4': 4, '2_mix': 4, '3_4': 2, '3_8': 3, '3_6': 2}
    if max_cells:
        mx = {k: min(v, max_cells) for k, v in mx.items()}

    @st.composite
    def strat(draw):
        kind = draw(st.sampled_from(list(kinds)))
        dim = int(kind[0])
        shape = [draw(st.integers(1, mx[kind])) for _ in range(dim)]
        out = {'kind': kind, 'shape': shape, 'seed': draw(st.integers(0, 10 ** 6)),
               'jit': draw(st.integers(0, 3)), 'aff': draw(st.integers(0, 1)),
               'drop': draw(st.sampled_from([0, 0, 2, 4]))}
        for k, v in kw.items():
            out[k] = draw(v) if hasattr(v, 'example') else v
        return out
    return strat()


# Independent reference quadrature on cells (Gauss / collapsed Gauss).
def ref_quad(desc, order):
    n = order // 2 + 2
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = 0.5 * (x + 1), 0.5 * w
    from numpy.polynomial import legendre  # noqa: F401
    if desc == '1_2':
        return x[:, None], w
    if desc in ('2_4', '3_8'):
        d = int(desc[0])
        g = np.meshgrid(*[x] * d, indexing='ij')
        gw = np.meshgrid(*[w] * d, indexing='ij')
        return np.stack([a.ravel() for a in g], 1), np.prod([a.ravel() for a in gw], axis=0)
    if desc == '2_3':
        a, b = [t.ravel() for t in np.meshgrid(x, x, indexing='ij')]
        wa, wb = [t.ravel() for t in np.meshgrid(w, w, indexing='ij')]
        return np.stack([a, b * (1 - a)], 1), wa * wb * (1 - a)
    if desc == '3_4':
        n = n + 1
        x, w = np.polynomial.legendre.leggauss(n)
        x, w = 0.5 * (x + 1), 0.5 * w
        a, b, c = [t.ravel() for t in np.meshgrid(x, x, x, indexing='ij')]
        wa, wb, wc = [t.ravel() for t in np.meshgrid(w, w, w, indexing='ij')]
        return (np.stack([a, b * (1 - a), c * (1 - a) * (1 - b)], 1),
                wa * wb * wc * (1 - a) ** 2 * (1 - b))
    if desc == '3_6':
        p2, w2 = ref_quad('2_3', order)
        return (np.c_[np.repeat(p2, n, axis=0), np.tile(x, len(p2))],
                np.repeat(w2, n) * np.tile(w, len(p2)))
    raise ValueError(desc)


def ref_shape(desc, xi):
    """First order shape functions and gradients: (np, nv), (np, nv, dim)."""
    xi = np.asarray(xi, float)
    n = len(xi)
    ref = REF[desc]
    nv, dim = ref.shape
    if desc in ('2_3', '3_4'):
        bf = np.c_[1 - xi.sum(1), xi]
        g = np.zeros((n, nv, dim))
        g[:, 0] = -1
        for i in range(dim):
            g[:, i + 1, i] = 1
        return bf, g
    if desc == '3_6':
        b2, g2 = ref_shape('2_3', xi[:, :2])
        z = xi[:, 2:]
        bf = np.c_[b2 * (1 - z), b2 * z]
        g = np.zeros((n, 6, 3))
        g[:, :3, :2] = g2 * (1 - z)[:, None]
        g[:, 3:, :2] = g2 * z[:, None]
        g[:, :3, 2] = -b2
        g[:, 3:, 2] = b2
        return bf, g
    bf = np.ones((n, nv))
    g = np.ones((n, nv, dim))
    for v in range(nv):
        for d in range(dim):
            f = xi[:, d] if ref[v, d] > 0.5 else 1 - xi[:, d]
            df = 1.0 if ref[v, d] > 0.5 else -1.0
            bf[:, v] *= f
            for e in range(dim):
                g[:, v, e] *= df if e == d else f
    return bf, g


def physical_quad(coors, conn, desc, order):
    """Points (nc, nq, sdim) and weights (nc, nq) in the physical cells."""
    qp, qw = ref_quad(desc, order)
    bf, bg = ref_shape(desc, qp)
    x = coors[conn]
    pts = np.einsum('qv,cvd->cqd', bf, x)
    jac = np.einsum('cvi,qvj->cqij', x, bg)
    if jac.shape[2] == jac.shape[3]:
        det = np.abs(np.linalg.det(jac))
    else:
        det = np.sqrt(np.abs(np.linalg.det(np.einsum('cqij,cqik->cqjk', jac, jac))))
    return pts, det * qw, jac


def boundary_facets(conns, descs):
    """Dict sorted-vertex-tuple -> list of (desc index, cell, local facet, oriented tuple)."""
    out = {}
    for g, (c, d) in enumerate(zip(conns, descs)):
        for i, cell in enumerate(c):
            for k, f in enumerate(facets(d)):
                t = tuple(int(cell[j]) for j in f)
                out.setdefault(tuple(sorted(t)), []).append((g, i, k, t))
    return out
