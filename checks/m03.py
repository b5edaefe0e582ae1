"""M03: mesh generation and mesh editing produce the geometry they promise."""
import itertools

import numpy as np
import hypothesis.strategies as st

import gen
from harness import Sub, check, close

from sfepy.discrete.fem import FEDomain, Mesh
from sfepy.discrete.fem.mesh import fix_double_nodes
from sfepy.mesh import mesh_generators as mg
from sfepy.mesh import mesh_tools as mt

PROP = 'M03'
RULE = ('Cases: random dimensions, shapes, centres, axes and options of the generators; random '
        'meshes (any numbering, rotations, groups) for the editing functions.  Every result is '
        'compared cell by cell or by exact volumes, facet conformity, groups and coordinates with '
        'an independent construction.  Non-trivial: at least two cells in the result.')
ASSUMPTIONS = ['generators calling external mesh generators (gmsh, tetgen, triangle) are not '
               'available offline', 'wedge cells are kept as an output of extrusion only',
               'revolution axes lie in the plane of the mesh, and do not cross it']


def parts(mesh):
    """List of (desc, conn, groups)."""
    out = []
    for d in mesh.descs:
        c, ii = mesh.get_conn(d, ret_cells=True)
        out.append((d, np.array(c), np.array(mesh.cmesh.cell_groups[ii])))
    return out


def volumes(coors, conn, desc):
    return gen.physical_quad(coors, conn, desc, 4)[1].sum(1)


def check_solid(mesh, volume=None, tol=1e-10, oriented=True, msg='', boundary=None):
    """Positive cells, conforming facets with opposite orientations, total volume."""
    coors = np.array(mesh.coors)
    ps = parts(mesh)
    tot = 0.0
    used = set()
    for d, c, g in ps:
        check(c.min() >= 0 and c.max() < len(coors), '%s: vertex numbers', msg)
        used |= set(c.ravel().tolist())
        if oriented and int(d[0]) == coors.shape[1]:
            if d[0] == '1':
                jac = coors[c[:, 1]] - coors[c[:, 0]]
            else:
                jac = gen.cell_jacs(d, coors[c])
            if oriented == 'any':
                jac = jac * np.sign(jac[:, :1])
            check((jac > -1e-12).all() and (jac.max(1) > 0).all(),
                  '%s: a cell is not positive', msg)
        tot += volumes(coors, c, d).sum()
    check(len(used) == len(coors), '%s: unused vertices', msg)
    if volume is not None:
        close(tot, volume, tol, 0, '%s: volume' % msg)
    dim = int(ps[0][0][0])
    if dim > 1:
        bf = gen.boundary_facets([p[1] for p in ps], [p[0] for p in ps])
        for k, v in bf.items():
            if len(set(k)) < len(k):
                continue  # Degenerate facets (full cylinders).
            check(len(v) <= 2, '%s: facet %s of more than two cells', msg, k)
            if oriented is True and len(v) == 2 and dim == coors.shape[1]:
                a, b = v[0][3], v[1][3]
                b = b[::-1]
                check(any(tuple(a) == tuple(b[j:] + b[:j]) for j in range(len(b))),
                      '%s: both cells on one side of facet %s', msg, k)
        if boundary is not None:
            area = 0.0
            for k, v in bf.items():
                if len(v) == 1 and len(set(k)) == len(k):
                    f = v[0][3]
                    fd = {2: '1_2', 3: '2_3', 4: '2_4'}[len(f)]
                    area += volumes(coors, np.array([f]), fd).sum()
            close(area, boundary, 1e-9, 0, '%s: boundary measure' % msg)
    return tot


def cell_set(coors, conn, desc, groups, digits=9):
    """Order-independent representation of cells with local vertex order."""
    out = {}
    x = np.round(np.asarray(coors)[conn], digits) + 0.0
    for a, g in zip(x, groups):
        k = (desc, int(g), tuple(map(tuple, a.tolist())))
        out[k] = out.get(k, 0) + 1
    return out


def all_cells(mesh):
    out = {}
    for d, c, g in parts(mesh):
        for k, v in cell_set(mesh.coors, c, d, g).items():
            out[k] = out.get(k, 0) + v
    return out


def same_coors(a, b, msg, tol=1e-10):
    close(np.asarray(a), np.asarray(b), tol, 1e-12, msg)


fl = st.floats(0.2, 5).map(lambda x: round(x, 3))
cf = st.floats(-3, 3).map(lambda x: round(x, 3))


# Generators.
def run_block(case):
    dims, shape, centre = case['dims'], case['shape'], case['centre']
    d = len(shape)
    m = mg.gen_block_mesh(dims, shape, centre, mat_id=case['mat'], name='bl', verbose=False)
    check(m.name == 'bl' and m.dim == d, 'name, dimension')
    ax = [centre[i] + dims[i] * (np.arange(shape[i]) / (shape[i] - 1.0) - 0.5) for i in range(d)]
    ref = np.array(list(itertools.product(*ax)))
    same_coors(m.coors, ref, 'block vertices')
    idx = np.arange(len(ref)).reshape(shape)
    conn = gen._box_cells([s - 1 for s in shape], idx)
    desc = {1: '1_2', 2: '2_4', 3: '3_8'}[d]
    check(list(m.descs) == [desc], 'cell kind %s', m.descs)
    got = all_cells(m)
    exp = cell_set(ref, conn, desc, [case['mat']] * len(conn))
    check(got == exp, 'block cells differ: %s', sorted(set(got) ^ set(exp))[:2])
    check_solid(m, float(np.prod(dims[:d])), msg='block')
    bb = m.get_bounding_box()
    same_coors(bb[0], np.array(centre[:d]) - 0.5 * np.array(dims[:d]), 'bounding box')
    same_coors(bb[1], np.array(centre[:d]) + 0.5 * np.array(dims[:d]), 'bounding box')
    return {'nontrivial': len(conn) > 1, 'classes': ['dim%d' % d]}


@st.composite
def s_block(draw, item=None):
    d = draw(st.integers(1, 3))
    return dict(dims=[draw(fl) for _ in range(3)],
                shape=[draw(st.integers(2, 5)) for _ in range(d)],
                centre=[draw(cf) for _ in range(3)], mat=draw(st.integers(0, 9)))


def run_cyl(case):
    a1, b1, a2, b2, le = dims = case['dims']
    nr, nfi, nl = shape = case['shape']
    c = np.array(case['centre'])
    op = case['open_angle']
    m = mg.gen_cylinder_mesh(dims, shape, c, axis=case['axis'], force_hollow=case['hollow'],
                             is_open=case['is_open'], open_angle=op,
                             non_uniform=case['nonuni'], make_2d=case['2d'], verbose=False)
    flat = case['2d'] or le == 0
    if case['2d']:
        le = 0
    ax = 'xyz'.index(case['axis'])
    dfi = 2 * (np.pi - op) / nfi
    area = 0.5 * nfi * np.sin(dfi) * (a2 * b2 - a1 * b1)
    x = np.array(m.coors)
    check(x.shape[1] == (2 if case['2d'] else 3), 'space dimension')
    n_fi = nfi + 1 if case['is_open'] else nfi
    hollow = case['hollow'] or max(a1, b1) > 0
    nll = 1 if flat else nl
    nn = nr * n_fi * nll - (0 if hollow else (n_fi - 1) * nll)
    check(m.n_nod == nn, 'number of vertices %d, expected %d', m.n_nod, nn)
    check(m.n_el == (nr - 1) * nfi * max(nll - 1, 1), 'number of cells %d', m.n_el)
    # Reference vertices.
    cc = c[:2] if case['2d'] else c
    if case['2d']:
        cc = c[1:]
    ra = np.linspace(a1, a2, nr)
    rb = np.linspace(b1, b2, nr)
    if case['nonuni']:
        ra = np.sqrt(np.linspace(a1 ** 2, a2 ** 2, nr))
        rb = np.sqrt(np.linspace(b1 ** 2, b2 ** 2, nr))
    ref = []
    for r1, r2 in zip(ra, rb):
        for k in range(n_fi):
            fi = op + k * dfi
            for z in (np.linspace(-0.5, 0.5, nl) * le if not flat else [0.0]):
                p = [z, r1 * np.cos(fi), r2 * np.sin(fi)]
                if case['2d']:
                    ref.append([p[1] + c2d(c)[0], p[2] + c2d(c)[1]])
                else:
                    q = np.zeros(3)
                    q[ax], q[(ax + 1) % 3], q[(ax + 2) % 3] = p
                    ref.append(q + c)
    from scipy.spatial import cKDTree
    t = cKDTree(np.array(ref))
    dd, _ = t.query(x)
    check(dd.max() < 1e-10 * max(1, np.abs(x).max()),
          'vertices of the cylinder are elsewhere (%.3e): bounding box %s %s, expected %s %s',
          dd.max(), x.min(0), x.max(0), np.min(ref, 0), np.max(ref, 0))
    t2 = cKDTree(x)
    dd, _ = t2.query(np.array(ref))
    check(dd.max() < 1e-10 * max(1, np.abs(x).max()), 'missing vertices of the cylinder')
    check((np.array(m.cmesh.cell_groups) == 0).all(), 'cell groups')
    desc = '2_4' if flat else '3_8'
    check(list(m.descs) == [desc], 'cell kind')
    if not (case['hollow'] and max(a1, b1) == 0):
        if flat and not case['2d']:
            check_solid(m, None, oriented=False, msg='cylinder')
            if a1 == b1 and a2 == b2:
                close(volumes(x, np.array(m.get_conn('2_4')), '2_4').sum(), area, 1e-9, 0,
                      'area of an annulus in space')
        else:
            # Coarse sections between dissimilar ellipses are not convex.
            prop = abs(a1 * b2 - a2 * b1) < 1e-9
            check_solid(m, area * (1 if flat else le) if prop else None, msg='cylinder',
                        oriented=hollow and prop)
    return {'nontrivial': m.n_el > 1, 'classes': [case['axis'], 'flat' if flat else 'solid',
                                                 'hollow' if hollow else 'full',
                                                 'open' if case['is_open'] else 'closed']}


def c2d(c):
    """The centre of a mesh in the x-y plane."""
    return c[:2]


@st.composite
def s_cyl(draw, item=None):
    full = draw(st.booleans())
    a1, b1 = (0.0, 0.0) if full else (draw(fl), draw(fl))
    if not full and draw(st.integers(0, 1)):
        b1 = a1
    da = draw(fl)
    db = da if a1 == b1 and draw(st.booleans()) else draw(fl)
    two = draw(st.sampled_from([False, False, True]))
    # Open cylinders may leave out a segment.
    is_open = draw(st.booleans())
    return dict(dims=[a1, b1, a1 + da, b1 + db, draw(st.one_of(fl, fl, st.just(0.0)))],
                shape=[draw(st.integers(2, 4)), draw(st.integers(3, 7)), draw(st.integers(2, 4))],
                centre=[draw(cf) for _ in range(3)], axis=draw(st.sampled_from('xyz')),
                hollow=draw(st.sampled_from([False, False, True])), is_open=is_open,
                open_angle=draw(st.sampled_from([0.0, 0.3, 1.0])) if is_open else 0.0,
                nonuni=draw(st.booleans()), **{'2d': two})


def run_ext(case):
    b_dims, b_shape = np.array(case['b_dims']), case['b_shape']
    e_dims = b_dims + 2 * np.array(case['ext'])
    c = np.array(case['centre'])
    dd = (b_dims / (np.array(b_shape) - 1)).min()
    gf = None
    if case['grad']:
        def gf(x):
            return x ** case['grad']
    elif dd >= min(case['ext']) or case['e_shape'] < 3:
        gf = lambda x: x  # noqa: E731
    m = mg.gen_extended_block_mesh(case['b_dims'], b_shape, e_dims, case['e_shape'], c,
                                   grading_fun=gf, name='e')
    check(m.name == 'e', 'name')
    x = np.array(m.coors)
    same_coors(x.min(0), c - 0.5 * e_dims, 'extended block: low corner')
    same_coors(x.max(0), c + 0.5 * e_dims, 'extended block: high corner')
    check_solid(m, float(np.prod(e_dims)), msg='extended block', oriented='any')
    (d, conn, g), = parts(m)
    check(d == '3_8', 'cell kind')
    n = np.array(b_shape) - 1
    ne = case['e_shape'] - 1
    exp = {0: n.prod(), 10: n[1] * n[2] * ne, 11: n[1] * n[2] * ne, 20: n[0] * n[2] * ne,
           21: n[0] * n[2] * ne, 30: n[0] * n[1] * ne, 31: n[0] * n[1] * ne}
    got = {int(k): int((g == k).sum()) for k in np.unique(g)}
    check(got == exp, 'cell groups %s, expected %s', got, exp)
    ce = x[conn].mean(1) - c
    for k in exp:
        y = ce[g == k]
        if k == 0:
            ok = (np.abs(y) < 0.5 * b_dims).all()
        else:
            i = k // 10 - 1
            s = 1 if k % 10 == 0 else -1
            ok = (s * y[:, i] > 0.5 * b_dims[i]).all()
        check(ok, 'cells of group %d are elsewhere', k)
    close(volumes(x, conn[g == 0], d).sum(), b_dims.prod(), 1e-10, 0, 'central block')
    sym = {10: 0, 20: 1, 30: 2}
    for k, i in sym.items():
        close(volumes(x, conn[g == k], d).sum(), volumes(x, conn[g == k + 1], d).sum(), 1e-10, 0,
              'sides')
    # Positions of layers along the axes.
    f = gf if gf is not None else None
    if f is not None:
        s = np.linspace(0, 1, case['e_shape'])
        lay = 0.5 * b_dims[0] + f(s) * case['ext'][0]
        got = np.unique(np.round(np.abs(x[:, 0] - c[0])[np.unique(conn[(g == 10) | (g == 11)])],
                                 8))
        check(len(got) == len(lay) and np.abs(got - lay).max() < 1e-7, 'graded layers')
    else:
        # Sizes next to the block are those of the shortest edges.
        i = int(np.argmin(case['ext']))
        v = np.unique(np.round(np.abs(x[np.unique(conn[(g == 10 * i + 10)]), i] - c[i]), 9))
        close(v[1] - v[0], dd, 1e-6, 0, 'element size next to the central block')
    return {'nontrivial': True, 'classes': ['grading' if case['grad'] else 'default']}


@st.composite
def s_ext(draw, item=None):
    return dict(b_dims=[draw(fl) for _ in range(3)],
                b_shape=[draw(st.integers(2, 4)) for _ in range(3)],
                ext=[draw(fl) for _ in range(3)], e_shape=draw(st.integers(2, 4)),
                centre=[draw(cf) for _ in range(3)], grad=draw(st.sampled_from([0, 0, 1, 1.5])))


BOX = dict(jit=0, aff=0, drop=0)


def run_tiled(case):
    m, r = gen.mesh(dict(case['mesh'], **BOX))
    d = r['descs'][0]
    dim = m.dim
    x0, x1 = m.get_bounding_box()
    grid = case['grid'][:dim]
    s = case['scale']
    kw = {}
    if case['auto']:
        s = 1.0 / max(grid)
        grid = [max(int(1.0 / s), 1)] * dim
        kw['scale'] = s
        out, nd = mg.gen_tiled_mesh(m, scale=s, ret_ndmap=True)
    else:
        out, nd = mg.gen_tiled_mesh(m, grid, scale=s, ret_ndmap=True)
    out2 = mg.gen_tiled_mesh(m, None if case['auto'] else grid, scale=s)
    check(np.abs(out2.coors - out.coors).max() < 1e-14
          and (out2.get_conn(d) == out.get_conn(d)).all(), 'ret_ndmap changes the mesh')
    exp = {}
    L = np.array(x1) - np.array(x0)
    vs = {}
    for ijk in itertools.product(*[range(g) for g in grid]):
        xx = (r['coors'] + L * ijk) * s
        for k, v in cell_set(xx, r['conns'][0], d, r['mat_ids'][0], 7).items():
            exp[k] = exp.get(k, 0) + v
    (dd, conn, g), = parts(out)
    got = cell_set(out.coors, conn, dd, g, 7)
    check(got == exp, 'tiled cells differ: %d of %d, e.g. %s', len(set(got) ^ set(exp)), len(exp),
          sorted(set(got) ^ set(exp))[:2])
    check_solid(out, float(np.prod(L * s * np.array(grid))), msg='tiled', tol=1e-8)
    # The node map: congruent modulo the cell, groups of the original node.
    check(len(nd) == out.n_nod, 'length of the node map')
    y = np.array(out.coors) / s - r['coors'][nd]
    q = y / L
    check(np.abs(q - np.round(q)).max() < 1e-6, 'node map')
    ng = np.array(out.cmesh.vertex_groups)
    check((ng == r['ngroups'][nd]).all(), 'vertex groups of the tiled mesh')
    del vs
    return {'nontrivial': out.n_el > 1, 'classes': [d, 'auto' if case['auto'] else 'grid']}


@st.composite
def s_tiled(draw, item=None):
    return dict(mesh=draw(gen.cases(['2_4', '3_8', '3_4'], 2)),
                grid=[draw(st.integers(1, 3)) for _ in range(3)],
                scale=draw(st.sampled_from([1.0, 0.5, 2.0])), auto=draw(st.booleans()))


def run_voxels(case):
    rs = np.random.RandomState(case['seed'])
    shape = case['shape']
    vox = rs.rand(*shape) < 0.5
    vox.flat[rs.randint(vox.size)] = True
    dims = case['dims'][:len(shape)]
    m = mg.gen_mesh_from_voxels(vox.astype(int), dims, etype=case['etype'])
    dim = len(shape)
    exp = {}
    ref = gen.REF['2_4' if dim == 2 else '3_8']
    for ii in np.argwhere(vox):
        k = np.array([ii[1], ii[0]] + list(ii[2:]))
        exp[tuple(np.round((k + 0.5) * dims, 9))] = 1
    (d, conn, g), = parts(m)
    x = np.array(m.coors)
    vv = float(np.prod(dims))
    check_solid(m, vv * len(exp), msg='voxels', oriented=True)
    if case['etype'] == 'q':
        check(d == ('2_4' if dim == 2 else '3_8'), 'kind')
        got = {tuple(np.round(a, 9)): 1 for a in x[conn].mean(1)}
        check(got == exp and len(conn) == len(exp), 'voxel cells')
        for c in conn:
            y = (x[c] - x[c].min(0)) / dims
            check(np.abs(y - ref).max() < 1e-9, 'shape of a voxel')
    else:
        check(d == ('2_3' if dim == 2 else '3_4'), 'kind')
        v = volumes(x, conn, d)
        acc = {}
        for c, vol in zip(conn, v):
            k = np.floor(x[c].mean(0) / dims)
            check((x[c] >= k * dims - 1e-9).all() and (x[c] <= (k + 1) * dims + 1e-9).all(),
                  'a simplex is not in one voxel')
            k = tuple(np.round((k + 0.5) * dims, 9))
            acc[k] = acc.get(k, 0) + vol
        check(set(acc) == set(exp), 'voxels of simplices')
        check(np.abs(np.array(list(acc.values())) / vv - 1).max() < 1e-9, 'simplex volumes')
    check((g == 1).all(), 'groups')
    return {'nontrivial': len(exp) > 1, 'classes': [d]}


@st.composite
def s_vox(draw, item=None):
    dim = draw(st.integers(2, 3))
    return dict(seed=draw(st.integers(0, 10 ** 6)), dims=[draw(fl) for _ in range(3)],
                shape=[draw(st.integers(1, 3)) for _ in range(dim)],
                etype=draw(st.sampled_from('qt')))


# Merging.
def split_mesh(r, mask):
    """Two meshes with own vertices from cells (single kind)."""
    out = []
    for mk in (mask, ~mask):
        c = r['conns'][0][mk]
        u = np.unique(c)
        new = -np.ones(len(r['coors']), dtype=np.int64)
        new[u] = np.arange(len(u))
        out.append((u, new[c].astype(np.int32), r['mat_ids'][0][mk]))
    return out


def run_merge(case):
    mc = case['mesh']
    r = gen.raw(mc)
    rs = np.random.RandomState(case['seed'])
    d = r['descs'][0]
    conn = r['conns'][0]
    n = len(conn)
    if case['how'] == 'add':
        if n < 2:
            return {'nontrivial': False}
        mask = rs.rand(n) < 0.5
        mask[0], mask[-1] = True, False
        ms = []
        for u, c, mi in split_mesh(r, mask):
            p = rs.permutation(len(u))
            q = np.argsort(p)
            ms.append(Mesh.from_data('m', r['coors'][u][p], r['ngroups'][u][p], [q[c]], [mi],
                                     [d]))
        ref = [all_cells(a) for a in ms]
        out = ms[0] + ms[1]
        check([all_cells(a) for a in ms] == ref, 'the operands changed')
        res = [(out.coors, out.cmesh.vertex_groups, parts(out))]
    else:
        # Every cell gets own copies of some vertices.
        coors, ng = [r['coors']], [r['ngroups']]
        nn = len(r['coors'])
        conns = []
        for c in r['conns']:
            c = c.copy()
            w = rs.rand(*c.shape) < case['dup']
            k = int(w.sum())
            coors.append(r['coors'][c[w]])
            ng.append(r['ngroups'][c[w]])
            c[w] = nn + np.arange(k)
            nn += k
            conns.append(c)
        coors, ng = np.concatenate(coors), np.concatenate(ng)
        # Only used vertices may be kept.
        p = rs.permutation(nn)
        q = np.argsort(p)
        coors, ng, conns = coors[p], ng[p], [q[c].astype(np.int32) for c in conns]
        if case['how'] == 'merge':
            m = Mesh.from_data('m', coors, ng, conns, r['mat_ids'], r['descs'])
            out = mt.merge_nodes(m, eps=1e-10)
            res = [(out.coors, out.cmesh.vertex_groups, parts(out))]
        else:
            x, g, cc = fix_double_nodes(coors, ng, conns)
            res = [(x, g, [(dd, a, b) for dd, a, b in zip(r['descs'], cc, r['mat_ids'])])]
    exp = {}
    for dd, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
        for k, v in cell_set(r['coors'], c, dd, g).items():
            exp[k] = exp.get(k, 0) + v
    for x, g, ps in res:
        x = np.array(x)
        got = {}
        for dd, c, gg in ps:
            check(c.min() >= 0 and c.max() < len(x), 'vertex numbers')
            for k, v in cell_set(x, c, dd, gg).items():
                got[k] = got.get(k, 0) + v
        check(got == exp, 'merged cells differ: %s', sorted(set(got) ^ set(exp))[:2])
        check(len(x) == len(r['coors']), 'number of vertices %d, expected %d', len(x),
              len(r['coors']))
        key = {tuple(np.round(a, 9) + 0.0): int(b) for a, b in zip(r['coors'], r['ngroups'])}
        for a, b in zip(x, g):
            check(key[tuple(np.round(a, 9) + 0.0)] == int(b), 'vertex group at %s', a)
    return {'nontrivial': n > 1, 'classes': [case['how'], d]}


@st.composite
def s_merge(draw, item=None):
    how = draw(st.sampled_from(['add', 'merge', 'fix']))
    kinds = ['1_2', '2_3', '2_4', '3_4', '3_8'] + ([] if how == 'add' else ['2_mix'])
    return dict(mesh=draw(gen.cases(kinds)), seed=draw(st.integers(0, 10 ** 6)), how=how,
                dup=draw(st.sampled_from([0.1, 0.5, 0.9])))


# Simplices.
def run_tri(case):
    mc = dict(case['mesh'])
    struct = case['struct']
    if struct:
        mc.update(rot=False)
    if mc['kind'] == '3_8' and not struct:
        mc.update(jit=0)
    m, r = gen.mesh(mc)
    d = r['descs'][0]
    out = mt.triangulate(m)
    (nd, conn, g), = parts(out)
    check(nd == {'2_4': '2_3', '3_8': '3_4'}.get(d, d), 'cell kind')
    same_coors(out.coors, r['coors'], 'vertices')
    check((np.array(out.cmesh.vertex_groups) == r['ngroups']).all(), 'vertex groups')
    if d == nd:
        check(all_cells(out) == all_cells(m), 'simplices changed')
        return {'nontrivial': False}
    k = {'2_4': 2, '3_8': 6}[d]
    check(len(conn) == k * m.n_el, 'number of simplices')
    sets = [frozenset(c.tolist()) for c in r['conns'][0]]
    acc = np.zeros(m.n_el)
    v = volumes(r['coors'], conn, nd)
    for c, gg, vol in zip(conn, g, v):
        par = [i for i, s in enumerate(sets) if s >= set(c.tolist())]
        check(len(par) == 1, 'a simplex is not in one cell')
        check(gg == r['mat_ids'][0][par[0]], 'cell group of a simplex')
        acc[par[0]] += vol
    if d == '2_4' or mc['jit'] == 0:
        close(acc, volumes(r['coors'], r['conns'][0], d), 1e-9, 0, 'volumes of cells')
    if mc.get('sdim', int(d[0])) == int(d[0]) and (struct or d == '2_4'):
        jac = gen.cell_jacs(nd, r['coors'][conn])
        if mc['jit'] == 0 or d == '2_4':
            check((jac > 0).all(), 'orientation')
        check_solid(out, None, msg='triangulated', oriented=mc['jit'] == 0)
        nb = [x for x in gen.boundary_facets([conn], [nd]).values() if len(x) == 1]
        n0 = [x for x in gen.boundary_facets(r['conns'], r['descs']).values() if len(x) == 1]
        check(len(nb) == len(n0) * (2 if d == '3_8' else 1), 'boundary facets')
    return {'nontrivial': m.n_el > 1, 'classes': [d, 'structured' if struct else 'rotated']}


@st.composite
def s_tri(draw, item=None):
    return dict(mesh=draw(gen.cases(['2_4', '2_4', '3_8', '3_8', '2_3'])),
                struct=draw(st.booleans()))


# Extrusions.
def rot_z_to(n):
    """The smallest rotation of the z axis to n."""
    n = np.asarray(n, float) / np.linalg.norm(n)
    v = np.cross([0, 0, 1.0], n)
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + k + k @ k / (1 + n[2])


def rot_axis(v, a):
    v = np.asarray(v, float) / np.linalg.norm(v)
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * (k @ k)


def check_layers(out, r, layers, closed=False, wedge=True, straight=False, msg='extruded',
                 oriented=True):
    """Every cell of a 2D mesh x layer is covered exactly by its 3D cells."""
    from scipy.spatial import cKDTree
    x = np.array(out.coors)
    n0 = len(r['coors'])
    pts = np.concatenate(layers[:-1] if closed else layers)
    check(len(x) == len(pts), '%s: %d vertices, expected %d', msg, len(x), len(pts))
    sc = np.abs(pts).max() + 1
    dd, ii = cKDTree(pts).query(x)
    check(dd.max() < 1e-9 * sc, '%s: a vertex is elsewhere (%.3e) %s', msg, dd.max(),
          x[dd.argmax()])
    check(len(np.unique(ii)) == len(pts), '%s: vertices not matched', msg)
    nl = len(layers) - 1
    check((np.array(out.cmesh.vertex_groups) == r['ngroups'][ii % n0]).all(),
          '%s: vertex groups', msg)
    cols = {}
    for d, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
        for cell, gr in zip(c, g):
            for k in range(nl):
                k1 = (k + 1) % nl if closed else k + 1
                key = frozenset((cell + n0 * k).tolist() + (cell + n0 * k1).tolist())
                cols[key] = [d, int(gr), 0.0, 0]
    # Volumes in the straight layered configuration (exact).
    lay = np.concatenate([np.c_[r['coors'][:, :2], np.full(n0, float(k))]
                          for k in range(nl + 1)])
    for d, c, g in parts(out):
        check(d in ('3_4', '3_6', '3_8') and (d != '3_6' or not wedge)
              and (d != '3_4' or wedge), '%s: cell kind %s', msg, d)
        for cell, gr in zip(c, g):
            cv = ii[cell]
            s = frozenset(cv.tolist())
            par = [k for k in cols if k >= s]
            if nl == 2 and closed and len(par) == 2:
                continue
            check(len(par) == 1, '%s: a cell is in %d columns', msg, len(par))
            p = cols[par[0]]
            check(int(gr) == p[1], '%s: cell group %s, expected %s', msg, gr, p[1])
            y = lay[cv].copy()
            z = y[:, 2]
            if closed and z.max() - z.min() > 1.5:
                z[z == 0] = nl
            p[2] += volumes(y, np.arange(len(y))[None], d)[0]
            p[3] += 1
    for k, (d, g, v, n) in cols.items():
        if nl == 2 and closed:
            break
        cell = np.array(sorted(a for a in k))
        check(n == {'2_3': 3 if wedge else 1, '2_4': 1}[d], '%s: %d cells in a column', msg, n)
        base = sorted(set(a % n0 for a in k))
        i = [j for dd, c in zip(r['descs'], r['conns']) for j in c
             if sorted(j.tolist()) == base][0]
        ar = volumes(r['coors'][:, :2], i[None], d)[0]
        close(v, ar, 1e-9, 0, '%s: volume of a column' % msg)
    # Conformity.
    ps = parts(out)
    bf = gen.boundary_facets([p[1] for p in ps], [p[0] for p in ps])
    nb = {3: 0, 4: 0}
    for k, v in bf.items():
        check(len(v) <= 2, '%s: a facet of more than two cells', msg)
        if len(v) == 1:
            nb[len(k)] += 1
    b2 = sum(1 for v in gen.boundary_facets(r['conns'], r['descs']).values() if len(v) == 1)
    nt = sum(len(c) for d, c in zip(r['descs'], r['conns']) if d == '2_3')
    nq = sum(len(c) for d, c in zip(r['descs'], r['conns']) if d == '2_4')
    if r['descs'] == ['2_3']:
        exp = {3: (0 if closed else 2 * nt) + (2 * b2 * nl if wedge else 0),
               4: 0 if wedge else b2 * nl}
        check(nb == exp, '%s: boundary facets %s, expected %s (not conforming?)', msg, nb, exp)
    elif r['descs'] == ['2_4']:
        exp = {3: 0, 4: (0 if closed else 2 * nq) + b2 * nl}
        check(nb == exp, '%s: boundary facets %s, expected %s', msg, nb, exp)
    if oriented:
        for d, c, g in ps:
            jac = gen.cell_jacs(d, x[c])
            check((jac > 0).all(), '%s: orientation', msg)


def run_extrude(case):
    mc = case['mesh']
    m, r = gen.mesh(mc)
    rs = np.random.RandomState(case['seed'])
    wedge = case['wedge']
    nl = case['nl']
    x0 = np.c_[r['coors'], np.zeros(len(r['coors']))]
    how = case['how']
    oriented = True
    if how == 'expand':
        out = mt.expand2d(m, case['dist'], nl)
        layers = [x0 + [0, 0, case['dist'] * k] for k in range(nl + 1)]
        wedge = True
    elif how == 'line':
        c = x0.mean(0)
        dirs = np.c_[rs.uniform(-1, 1, (nl, 2)) * case['bend'], np.ones(nl)]
        cl = np.vstack([rs.uniform(-1, 1, 3), dirs * rs.uniform(1, 2, (nl, 1))]).cumsum(0)
        kw = {}
        tw = np.zeros(nl)
        sc = np.ones(nl)
        if case['twist'] == 1:
            a = rs.uniform(-0.5, 0.5)
            kw['twist'] = a
            tw = a * np.arange(1, nl + 1)
        elif case['twist'] == 2:
            tw = rs.uniform(-0.5, 0.5, nl)
            kw['twist'] = tw.tolist()
        if case['scale']:
            sc = rs.uniform(0.5, 1.5, nl)
            kw['scale'] = sc.tolist()
        nv = cl[1:] - cl[:-1]
        if case['nvec']:
            nv = nv + rs.uniform(-0.3, 0.3, nv.shape)
            kw['nvec'] = nv.tolist()
        out = mt.extrude(m, cl.tolist(), wedge_to_tetra=wedge, **kw)
        layers = [x0 - c + cl[0]]
        for k in range(nl):
            n = nv[k] / np.linalg.norm(nv[k])
            y = (x0 - c) @ rot_z_to(n).T @ rot_axis(n, tw[k]).T * sc[k]
            layers.append(y + cl[k + 1])
        oriented = case['bend'] == 0 and not (case['twist'] or case['nvec'] or case['scale'])
    else:
        a = case['angle']
        v = np.array([np.cos(a), np.sin(a), 0.0])
        w = np.array([-np.sin(a), np.cos(a), 0.0])
        # Axis below the mesh w.r.t. w, so that rotating moves the mesh in +z.
        p = x0.mean(0) + 0.7 * v
        p = p - w * ((p - x0) @ w).max() - w * case['dist']
        p = p.tolist()
        vv = (v * case['vlen']).tolist()
        kw = {}
        phi = 2 * np.pi
        if case['how'] == 'revolve':
            phi = np.deg2rad(case['phi'])
            kw['phi_max'] = case['phi']
        else:
            nl = max(nl, 3)
        out = mt.revolve(m, nl, p, vv, wedge_to_tetra=wedge, **kw)
        layers = [(x0 - p) @ rot_axis(v, phi * k / nl).T + p for k in range(nl + 1)]
        check_layers(out, r, layers, closed=how == 'loop', wedge=wedge, msg=how,
                     oriented=phi / nl < 1.0 and mc['jit'] == 0)
        return {'nontrivial': True, 'classes': [how, mc['kind'], 'tetra' if wedge else 'wedge']}
    check_layers(out, r, layers, wedge=wedge, msg=how, oriented=oriented)
    return {'nontrivial': m.n_el > 1 or nl > 1,
            'classes': [how, mc['kind'], 'tetra' if wedge else 'wedge']}


@st.composite
def s_extrude(draw, item=None):
    return dict(mesh=draw(gen.cases(['2_3', '2_3', '2_4', '2_mix'], 2)),
                seed=draw(st.integers(0, 10 ** 6)), nl=draw(st.integers(1, 4)),
                how=draw(st.sampled_from(['expand', 'line', 'line', 'revolve', 'loop'])),
                dist=draw(fl), wedge=draw(st.booleans()), bend=draw(st.sampled_from([0, 0.3])),
                twist=draw(st.integers(0, 2)), scale=draw(st.booleans()),
                nvec=draw(st.booleans()), angle=draw(st.sampled_from([0.0, 0.0, 0.7, -1.0, 1.5])),
                vlen=draw(st.sampled_from([1, 1, 2.0, 0.5])),
                phi=draw(st.sampled_from([30, 90, 150, 270])))


def run_mirror(case):
    m, r = gen.mesh(case['mesh'])
    rs = np.random.RandomState(case['seed'])
    d = r['descs'][0]
    x = r['coors']
    if x.shape[1] == 2:
        x = np.c_[x, np.zeros(len(x))]
        v = np.r_[rs.uniform(-1, 1, 2), 0]
    else:
        v = rs.uniform(-1, 1, 3)
    if case['axis']:
        v = np.eye(3)[rs.randint(m.dim)] * rs.choice([-2, 1.0])
    n = v / np.linalg.norm(v)
    s = x @ n
    dist = 0.0 if case['touch'] else 0.3
    p = x[s.argmax()] + dist * n
    out = mt.mirror(m, p.tolist(), v.tolist())
    y = x - 2 * ((x - p) @ n)[:, None] * n
    exp = {}
    for dd, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
        for cc, gg in zip(c, g):
            for xx in (x, y):
                k = (dd, int(gg), tuple(sorted(map(tuple, (np.round(xx[cc], 7) + 0.0).tolist()))))
                exp[k] = exp.get(k, 0) + 1
    got = {}
    for dd, c, g in parts(out):
        for cc, gg in zip(c, g):
            k = (dd, int(gg), tuple(sorted(map(tuple, (np.round(out.coors[cc], 7)
                                                       + 0.0).tolist()))))
            got[k] = got.get(k, 0) + 1
    check(got == exp, 'mirrored cells differ %s', sorted(set(got) ^ set(exp))[:2])
    nm = int((np.abs(s - s.max()) < 1e-13 * 10).sum()) if case['touch'] else 0
    check(out.n_nod == 2 * len(x) - nm, 'vertices %d, expected %d', out.n_nod, 2 * len(x) - nm)
    X = np.array(out.coors)
    if d[0] == '3':
        for dd, c, g in parts(out):
            check((gen.cell_jacs(dd, X[c]) > 0).all(), 'mirrored orientation')
    else:
        for dd, c, g in parts(out):
            check((gen.cell_jacs(dd, X[c][:, :, :2]) > 0).all(), 'mirrored orientation')
    from scipy.spatial import cKDTree
    _, ii = cKDTree(np.vstack([x, y])).query(X)
    check((np.array(out.cmesh.vertex_groups) == np.r_[r['ngroups'], r['ngroups']][ii]).all(),
          'vertex groups')
    return {'nontrivial': True, 'classes': [d, 'touch' if nm else 'apart']}


@st.composite
def s_mirror(draw, item=None):
    return dict(mesh=draw(gen.cases(['2_3', '2_4', '2_mix', '3_4', '3_8'], 2)),
                seed=draw(st.integers(0, 10 ** 6)), axis=draw(st.booleans()),
                touch=draw(st.sampled_from([True, True, False])))


# Selections, surfaces.
def run_groups(case):
    m, r = gen.mesh(case['mesh'])
    val = case['value']
    if case['form'] == 'list':
        val = [case['value'], case['value2']]
        f = lambda g: np.isin(g, val)  # noqa: E731
    elif case['form'] == 'tuple':
        val = (min(case['value'], case['value2']), max(case['value'], case['value2']))
        f = lambda g: (g >= val[0]) & (g <= val[1])  # noqa: E731
    else:
        f = lambda g: g == val  # noqa: E731
    exp = {}
    sel_any = False
    vs = np.zeros(len(r['coors']), bool)
    vm = f(r['ngroups'])
    for d, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
        mk = f(g) if case['what'] == 'cell' else vm[c].all(1)
        if case['what'] == 'only':
            mk = np.random.RandomState(case['seed']).rand(len(g)) < 0.6
        sel_any |= bool(mk.any())
        vs[c[mk]] = True
        for k, v in cell_set(r['coors'], c[mk], d, g[mk]).items():
            exp[k] = exp.get(k, 0) + v
    if not sel_any:
        return {'nontrivial': False}
    if case['what'] == 'only':
        mm, conns, mats, descs = np.random.RandomState(case['seed']), [], [], []
        for d, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
            mk = np.random.RandomState(case['seed']).rand(len(g)) < 0.6
            if mk.any():
                conns.append(c[mk])
                mats.append(g[mk])
                descs.append(d)
        del mm
        src = Mesh.from_data('m', r['coors'], r['ngroups'], conns, mats, descs)
        out = mt.get_cell_vertices_only(src)
    elif case['what'] == 'cell':
        out = mt.get_mesh_by_cgroup(m, val, cell_vertices_only=case['clean'])
        if not case['clean']:
            vs[:] = True
    else:
        out = mt.get_mesh_by_ngroup(m, val, cell_vertices_only=case['clean'])
        if not case['clean']:
            vs = vm
    got = all_cells(out)
    check(got == exp, 'selected cells differ: %s', sorted(set(got) ^ set(exp))[:2])
    key = sorted((tuple(np.round(a, 9) + 0.0), int(g)) for a, g in zip(r['coors'][vs],
                                                                      r['ngroups'][vs]))
    ko = sorted((tuple(np.round(a, 9) + 0.0), int(g)) for a, g in
                zip(out.coors, out.cmesh.vertex_groups))
    check(key == ko, 'vertices of the selection')
    return {'nontrivial': True, 'classes': [case['what'], case['form'], case['mesh']['kind']]}


@st.composite
def s_groups(draw, item=None):
    what = draw(st.sampled_from(['cell', 'vertex', 'only']))
    return dict(mesh=draw(gen.cases(['2_3', '2_4', '2_mix', '2_mix', '3_4', '3_8', '1_2'],
                                    n_ng=2 if what == 'vertex' else 4)),
                seed=draw(st.integers(0, 10 ** 6)),
                what=what, value=draw(st.integers(0, 2)),
                value2=draw(st.integers(0, 2)), clean=draw(st.booleans()),
                form=draw(st.sampled_from(['int', 'list', 'tuple'])))


def run_surface(case):
    dom, r = gen.domain(case['mesh'])
    m = dom.mesh
    bf = gen.boundary_facets(r['conns'], r['descs'])
    bnd = {k: v for k, v in bf.items() if len(v) == 1}
    lst, faces = mt.get_surface_faces(dom)
    got = sorted(tuple(sorted(f.tolist())) for ff in faces for f in ff)
    check(got == sorted(bnd), 'surface faces differ')
    d = r['descs'][0]
    # (cell, local face) list.
    cc = np.array(m.get_conn(d))
    loc = sorted(tuple(sorted(int(cc[c][j]) for j in gen.facets(d)[k])) for c, k in lst)
    check(loc == sorted(bnd), 'cells and local faces of the surface')
    gr = mt.surface_graph(faces, m.n_nod)
    adj = np.asarray(gr.toarray()) != 0
    exp = np.zeros_like(adj)
    for k in bnd:
        for a in k:
            for b in k:
                exp[a, b] = True
    check((adj == exp).all(), 'surface graph')
    nc, comps = mt.surface_components(gr, faces)
    # Union-find reference.
    par = list(range(m.n_nod))

    def find(a):
        while par[a] != a:
            a = par[a]
        return a
    for k in bnd:
        for a in k[1:]:
            par[find(a)] = find(k[0])
    check(nc == len({find(a) for a in range(m.n_nod)}), 'number of components')
    lab = {}
    for ff, co in zip(faces, comps):
        for f, c in zip(ff, co):
            check(lab.setdefault(find(int(f[0])), int(c)) == int(c), 'component flags')
    check(len(set(lab.values())) == len(lab), 'component flags are not distinct')
    ncomp = len(lab)
    return {'nontrivial': len(cc) > 1, 'classes': [d, 'comps%d' % min(ncomp, 3)]}


def run_edges(case):
    mc = dict(case['mesh'], jit=0, bend=0)
    m, r = gen.mesh(mc)
    d = r['descs'][0]
    bf = gen.boundary_facets(r['conns'], r['descs'])
    x = r['coors']
    n0 = all_cells(m)
    if d[0] == '2':
        x = np.c_[x, np.zeros(len(x))]
        exp = sorted(k for k, v in bf.items() if len(v) == 1)
    else:
        inc = {}
        for k, v in bf.items():
            if len(v) == 1:
                f = v[0][3]
                nn = np.cross(x[f[1]] - x[f[0]], x[f[-1]] - x[f[0]])
                nn /= np.linalg.norm(nn)
                for a, b in zip(f, f[1:] + f[:1]):
                    inc.setdefault(tuple(sorted((a, b))), []).append(nn)
        if any(len(v) != 2 for v in inc.values()):
            return {'nontrivial': False}
        exp = sorted(k for k, v in inc.items() if np.abs(v[0] - v[1]).max() > 1e-6)
    out = mt.extract_edges(m, eps=1e-8)
    co, ng, conns, mats, descs = out
    check(all_cells(m) == n0, 'the mesh changed')
    check(list(descs) == ['3_2'] and len(conns) == 1, 'edge mesh data')
    key = {tuple(np.round(a, 9) + 0.0): i for i, a in enumerate(x)}
    glob = np.array([key[tuple(np.round(a, 9) + 0.0)] for a in co])
    got = sorted(tuple(sorted((int(glob[a]), int(glob[b])))) for a, b in conns[0])
    check(got == exp, 'outline edges: %d, expected %d', len(got), len(exp))
    check(len(np.unique(conns[0])) == len(co), 'unused vertices of the outline')
    # Merging keeps the outline as a point set: the same total length per direction.
    le0 = {}
    merged = mt.merge_lines((co.copy(), ng.copy(), [conns[0].copy()], [mats[0].copy()], descs),
                            eps=1e-8)
    mco, mng, mconns, mmats, mdescs = merged
    check(len(mng) == len(mco) and len(mmats[0]) == len(mconns[0]), 'merged data sizes')

    def dirs(c, con):
        out = {}
        for a, b in con:
            e = c[b] - c[a]
            le = np.linalg.norm(e)
            if le < 1e-13:
                continue
            u = e / le
            u = u if tuple(np.round(u, 6)) > tuple(np.round(-u, 6)) else -u
            off = c[a] - (c[a] @ u) * u
            k = tuple(np.round(u, 5) + 0.0) + tuple(np.round(off, 5) + 0.0)
            out[k] = out.get(k, 0) + le
        return out
    a, b = dirs(co, conns[0]), dirs(mco, mconns[0])
    check(sorted(a) == sorted(b), 'lines of the merged outline differ')
    close([b[k] for k in sorted(a)], [a[k] for k in sorted(a)], 1e-8, 0, 'lengths of lines')
    # No mergeable vertex remains.
    deg = {}
    for i, (p, q) in enumerate(mconns[0]):
        for v in (p, q):
            deg.setdefault(int(v), []).append(i)
    for v, es in deg.items():
        if len(es) == 2:
            e = [mco[mconns[0][i][1]] - mco[mconns[0][i][0]] for i in es]
            e = [q / np.linalg.norm(q) for q in e]
            check(abs(abs(e[0] @ e[1]) - 1) > 1e-12, 'edges at vertex %d are not merged', v)
    del le0
    return {'nontrivial': len(exp) > 4, 'classes': [d]}


def s_surface(item):
    return st.builds(lambda m: {'mesh': m}, gen.cases(['3_4', '3_8'], inv=0))


def s_edges(item):
    return st.builds(lambda m: {'mesh': m}, gen.cases(['2_3', '2_4', '3_8', '3_8', '3_4'],
                                                      drop=st.sampled_from([0, 0, 2])))


def run_smooth(case):
    mc = case['mesh']
    m, r = gen.mesh(mc)
    d = r['descs'][0]
    x = r['coors'].copy()
    kw = dict(n_iter=case['n_iter'], lam=case['lam'], mu=case['mu'], bconstr=case['bconstr'])
    # Naive Taubin smoothing with equal weights of admissible neighbours.
    grp = np.full(len(x), 2)
    if case['bconstr']:
        for k, v in gen.boundary_facets(r['conns'], r['descs']).items():
            if len(v) == 1:
                grp[list(k)] = 4
    nb = [set() for _ in x]
    for dd, c in zip(r['descs'], r['conns']):
        for cell in c:
            for a, b in gen.EDGES[dd]:
                a, b = int(cell[a]), int(cell[b])
                if grp[b] >= grp[a]:
                    nb[a].add(b)
                if grp[a] >= grp[b]:
                    nb[b].add(a)
    y = x.copy()
    for it in range(case['n_iter']):
        disp = np.array([y[sorted(nb[i])].mean(0) - y[i] for i in range(len(y))])
        y = y + (case['lam'] if it % 2 == 0 else case['mu']) * disp
    vol = case['vol']
    c0 = np.array(m.coors)
    got = mt.smooth_mesh(m, volume_corr=vol, **kw)
    check((np.array(m.coors) == c0).all(), 'the mesh changed')
    if vol:
        dd, conn = r['descs'][0], r['conns'][0]
        if dd in ('2_4', '3_8'):
            conn = mt.elems_q2t(conn)
            dd = '2_3' if dd == '2_4' else '3_4'

        def v_b(z):
            e = z[conn]
            v = np.linalg.det(e[:, 1:] - e[:, :1]) / (2 if m.dim == 2 else 6)
            return v.sum(), (v[:, None] * e.mean(1)).sum(0) / v.sum()
        v0, b0 = v_b(x)
        v1, _ = v_b(y)
        v2, _ = v_b(np.asarray(got))
        if v1 / v0 < 0.05:
            return {'nontrivial': False}
        close(v2, v0, 1e-9, 0, 'corrected volume')
        # A homothety of the smoothed mesh with respect to the original barycentre.
        y = (y - b0) * (v0 / v1) ** (1.0 / m.dim) + b0
    close(got, y, 1e-9, 1e-12, 'smoothed coordinates')
    return {'nontrivial': len(x) > 4 and case['n_iter'] > 0,
            'classes': [d, 'volume' if vol else 'plain']}


@st.composite
def s_smooth(draw, item=None):
    return dict(mesh=draw(gen.cases(['2_3', '2_4', '3_4', '3_8'], 3)),
                n_iter=draw(st.integers(0, 5)), lam=draw(st.sampled_from([0.6307, 0.3])),
                mu=draw(st.sampled_from([-0.6347, -0.2])), bconstr=draw(st.booleans()),
                vol=draw(st.booleans()))


SUBS = [
    Sub('block', s_block, run_block, n=60 * 3),
    Sub('cylinder', s_cyl, run_cyl, n=100 * 3),
    Sub('extended', s_ext, run_ext, n=30 * 3),
    Sub('tiled', s_tiled, run_tiled, n=60 * 3),
    Sub('voxels', s_vox, run_voxels, n=50 * 3),
    Sub('merge', s_merge, run_merge, n=100 * 3),
    Sub('simplices', s_tri, run_tri, n=60 * 3),
    Sub('extrude', s_extrude, run_extrude, n=120 * 3),
    Sub('mirror', s_mirror, run_mirror, n=60 * 3),
    Sub('groups', s_groups, run_groups, n=80 * 3),
    Sub('surface', s_surface, run_surface, n=60 * 3),
    Sub('edges', s_edges, run_edges, n=60 * 3),
    Sub('smooth', s_smooth, run_smooth, n=60 * 3),
]
