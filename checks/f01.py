"""F01: global finite element spaces are conforming and complete."""
import itertools

import numpy as np
import hypothesis.strategies as st

import gen
from fe import fun_region, facet_region, pick
from harness import Sub, check, close

from sfepy.discrete import FieldVariable, Integral
from sfepy.discrete.fem import Field
from sfepy.discrete.projections import (create_mass_matrix, make_l2_projection,
                                        make_l2_projection_data, make_h1_projection_data,
                                        project_by_component, project_to_facets)

PROP = 'F01'
RULE = ('Cases: random meshes of every cell kind with random vertex numbering and cell rotations, '
        'missing cells, (non-)affine cells; fields of every basis family, order 0-5, 1-3 '
        'components, on the domain, a subdomain or a surface.  Oracle: DOF entities from '
        'vertex sets, values from both sides of facets, random polynomials.  Non-trivial: at '
        'least two cells and order at least 1.')
ASSUMPTIONS = ['wedges: order 1 only', 'higher order serendipity bases reproduce polynomials on '
               'affine cells only', 'one cell kind per field region']

FAMS = {
    '1_2': ['lagrange', 'bernstein', 'lobatto', 'sem'],
    '2_3': ['lagrange', 'bubble', 'bernstein'],
    '2_4': ['lagrange', 'serendipity', 'lobatto', 'bernstein', 'sem'],
    '3_4': ['lagrange', 'bubble', 'bernstein'],
    '3_6': ['lagrange'],
    '3_8': ['lagrange', 'serendipity', 'lobatto', 'bernstein', 'sem'],
}
MAXO = {'1_2': 5, '2_3': 5, '2_4': 5, '3_4': 4, '3_6': 1, '3_8': 3}
NODAL = ('lagrange', 'serendipity', 'sem', 'bubble')


def order_range(g, fam):
    if fam == 'bubble':
        return 1, 1
    return 1, (3 if fam == 'serendipity' else MAXO[g])


def make_field(name, shape, region, order, fam, dtype=np.float64):
    if fam == 'bubble':
        return Field.from_args(name, dtype, shape, region, approx_order='%dB' % order)
    return Field.from_args(name, dtype, shape, region, approx_order=order,
                           poly_space_basis=fam)


def n_interior(g, fam, k):
    """Numbers of DOFs in interiors of (edge, face, cell) of the cell kind."""
    e = k - 1
    tri = (k - 1) * (k - 2) // 2
    tet = (k - 1) * (k - 2) * (k - 3) // 6
    if fam == 'serendipity':
        return e, 0, 0
    if fam == 'bubble':
        return e, (tri if g == '3_4' else 0), (1 if g != '3_4' or True else 0)
    if g == '1_2':
        return 0, 0, e
    if g == '2_3':
        return e, 0, tri
    if g == '3_4':
        return e, tri, tet
    if g == '2_4':
        return e, 0, e ** 2
    if g == '3_8':
        return e, e ** 2, e ** 3
    return 0, 0, 0


class Poly:
    def __init__(self, rs, dim, order, nc=1):
        self.es = [e for e in itertools.product(range(order + 1), repeat=dim) if sum(e) <= order]
        self.a = rs.uniform(-1, 1, (len(self.es), nc))

    def __call__(self, x):
        m = np.stack([np.prod(x ** np.array(e), axis=-1) for e in self.es], -1)
        return m @ self.a

    def grad(self, x):
        """(..., dim, nc)"""
        out = []
        for d in range(x.shape[-1]):
            cols = []
            for e in self.es:
                f = list(e)
                c = f[d]
                f[d] = max(c - 1, 0)
                cols.append(c * np.prod(x ** np.array(f), axis=-1))
            out.append(np.stack(cols, -1) @ self.a)
        return np.stack(out, -2)


def ref_points(g, rs, n):
    dim = int(g[0])
    if g in ('2_3', '3_4'):
        return rs.dirichlet(np.ones(dim + 1), n)[:, 1:].copy()
    x = rs.rand(n, dim)
    if g == '3_6':
        x[:, :2] = rs.dirichlet(np.ones(3), n)[:, 1:]
    return x


def bases(field, xi, diff=False):
    """Field basis at given reference points: (n_cell or 1, n_point, bdim, n_nod)."""
    ii = Integral('i', coors=np.ascontiguousarray(xi), weights=np.ones(len(xi)), order='custom')
    field.clear_qp_basis()
    bf = field.eval_basis('v', diff, ii)
    field.clear_qp_basis()
    return bf if bf.ndim == 4 else bf[None]


def cell_ents(g, cell, k):
    """Vertex sets of the entities of a cell by node type codes."""
    v = [frozenset([int(i)]) for i in cell]
    if g == '1_2':
        return {0: v, 3: [frozenset(int(i) for i in cell)] * 40}
    e = [frozenset(int(cell[i]) for i in f) for f in gen.EDGES[g]]
    f = [frozenset(int(cell[i]) for i in f) for f in gen.FACES.get(g, [])]
    return {0: v, 1: e, 2: f, 3: [frozenset(int(i) for i in cell)] * 200}


def facet_params(g, nf, rs, n):
    """Weights of facet vertices (in a cyclic order) at points of the facet."""
    if nf == 1:
        return np.ones((1, 1))
    if nf in (2, 3):
        return np.r_[rs.dirichlet(np.ones(nf), n), np.eye(nf)]
    x = rs.rand(n, 2)
    b, _ = gen.ref_shape('2_4', x)
    return np.r_[b, np.eye(4)]


def setup(case):
    dom, r = gen.domain(case['mesh'])
    g = r['descs'][0]
    conn = r['conns'][0]
    omega = dom.create_region('Omega', 'all')
    reg, cells = omega, np.arange(len(conn))
    if case['sub']:
        m = pick(case['seed'] + 1, len(conn), 0.6)
        reg = fun_region(dom, 'Sub', m)
        cells = np.where(m)[0]
    # Connectivity as stored in the domain (cells may be sorted differently).
    cc = np.asarray(dom.cmesh.get_conn(int(g[0]), 0).indices).reshape(conn.shape)
    return dom, r, g, cc.astype(int), reg, cells


def run_space(case):
    g, fam, k = case['mesh']['kind'], case['fam'], case['order']
    rs = np.random.RandomState(case['seed'])
    dom, r, g, conn, reg, cells = setup(case)
    dim = int(g[0])
    nc = case['nc']
    coors = dom.mesh.coors
    field = make_field('f', nc, reg, k, fam)
    ps = field.poly_space
    check(field.n_components == nc and field.shape == (nc,), 'components')
    econn = np.asarray(field.econn)
    check(econn.shape == (len(cells), ps.n_nod), 'connectivity shape %s', econn.shape)
    n_nod = field.n_nod
    check(econn.min() == 0 and econn.max() == n_nod - 1 and
          len(np.unique(econn)) == n_nod, 'DOFs not all used: %d of %d',
          len(np.unique(econn)), n_nod)
    check(all(len(set(e)) == len(e) for e in econn.tolist()), 'repeated DOFs in a cell')

    # Number of DOFs, shared entities.
    ni = n_interior(g, fam, k)
    vs, es, fs = set(), set(), set()
    for c in conn[cells]:
        ce = cell_ents(g, c, k)
        vs.update(ce[0])
        es.update(ce.get(1, []))
        fs.update(ce.get(2, []))
    n_ref = len(vs) + ni[0] * len(es) + ni[1] * len(fs) + ni[2] * len(cells)
    check(n_nod == n_ref, '%d DOFs instead of %d', n_nod, n_ref)
    ent = {}
    nts = np.asarray(ps.nts)
    if g != '3_6':
        for ic, c in enumerate(conn[cells]):
            ce = cell_ents(g, c, k)
            for j, (t, i) in enumerate(nts):
                key = ce[int(t)][int(i)]
                old = ent.setdefault(int(econn[ic, j]), key)
                check(old == key, 'DOF %d shared by different entities %s, %s', econn[ic, j],
                      sorted(old), sorted(key))
    else:
        for ic, c in enumerate(conn[cells]):
            for j, v in enumerate(c):
                old = ent.setdefault(int(econn[ic, j]), frozenset([int(v)]))
                check(old == frozenset([int(v)]), 'vertex DOF')

    # Continuity over facets.
    byf = {}
    for ic, c in enumerate(conn[cells]):
        for f in gen.facets(g):
            byf.setdefault(frozenset(int(c[i]) for i in f), []).append((ic, f))
    inner = [v for v in byf.values() if len(v) == 2]
    dofs = rs.uniform(-1, 1, (n_nod, 3))
    cont = {}
    todo = [inner[i] for i in rs.permutation(len(inner))[:60]]
    for (c0, f0), (c1, f1) in todo:
        cyc = [int(conn[cells[c0]][i]) for i in f0]
        key = (len(cyc),)
        if key not in cont:
            cont[key] = facet_params(g, len(cyc), rs, 4)
        w = cont[key]
        vals = []
        for c in (c0, c1):
            loc = [list(conn[cells[c]]).index(v) for v in cyc]
            xi = w @ gen.REF[g][loc]
            kk = ('b', tuple(loc))
            if kk not in cont:
                cont[kk] = bases(field, xi)
            b = cont[kk]
            b = b[c if len(b) > 1 else 0][:, 0]
            vals.append(b @ dofs[econn[c]])
        close(vals[0], vals[1], 0, 1e-10 * max(1, np.abs(vals[0]).max()),
              'jump over a facet between cells %d, %d' % (c0, c1))

    # Polynomials.
    p_ord = k
    if fam == 'serendipity' and not case['affine']:
        p_ord = 1
    if g == '3_6':
        p_ord = 1
    po = Poly(rs, dim, p_ord, nc)
    var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    if fam in NODAL:
        how = case['how']
        if how == 'fun':
            var.set_from_function(lambda x: po(x))
        elif how == 'dofs':
            nods, vals = field.set_dofs(po)
            check(len(nods) == n_nod, 'set_dofs(): number of nodes')
            v = np.empty((n_nod, nc))
            v[nods] = np.asarray(vals).reshape(len(nods), nc)
            var.set_data(v.ravel())
        else:
            var.set_data(po(field.get_coor()).ravel())
        nodes = field.get_coor()
        check(nodes.shape == (n_nod, dim), 'node coordinates shape')
        bf, _ = gen.ref_shape(g, ps.node_coors)
        ref = np.einsum('nv,cvd->cnd', bf, coors[conn[cells]])
        close(nodes[econn], ref, 1e-12, 1e-13, 'node coordinates')
    else:
        vals = []
        sf = field if nc == 1 else make_field('s', 1, reg, k, fam)
        for c in range(nc):
            sv = FieldVariable('s', 'unknown' if case['how'] == 'h1' else 'parameter', sf,
                               primary_var_name=None if case['how'] == 'h1'
                               else '(set-to-None)')
            pc = Poly(rs, dim, 0, 1)
            pc.es, pc.a = po.es, po.a[:, c:c + 1]

            def data(ts, coors, mode, **kw):
                return pc(coors)[:, :, None] if coors.ndim == 2 else None
            if case['how'] == 'h1':
                def hdata(ts, coors, mode, what, **kw):
                    if what == 'val':
                        return pc(coors).reshape(-1, 1, 1)
                    return pc.grad(coors).reshape(-1, dim, 1)
                make_h1_projection_data(sv, hdata)
            else:
                make_l2_projection_data(sv, data)
            vals.append(np.array(sv()))
        var.set_data(np.stack(vals, 1).ravel())
    xi = ref_points(g, rs, 5)
    x = coors[conn[cells]]
    bf, bg = gen.ref_shape(g, xi)
    px = np.einsum('qv,cvd->cqd', bf, x)
    jac = np.einsum('cvi,qvj->cqij', x, bg)
    tol = 1e-9 if fam in NODAL else 1e-7
    vec = var().reshape(n_nod, nc)
    b0, b1 = bases(field, xi), bases(field, xi, 1)
    ncl = len(cells)
    b0 = np.broadcast_to(b0, (ncl,) + b0.shape[1:])
    b1 = np.broadcast_to(b1, (ncl,) + b1.shape[1:])
    val = np.einsum('cqn,cnk->cqk', b0[:, :, 0], vec[econn])
    close(val, po(px), tol, tol, 'values of a polynomial of order %d' % p_ord)
    gr = np.einsum('cqdn,cnk->cqdk', b1, vec[econn])
    gr = np.einsum('cqdj,cqdk->cqjk', np.linalg.inv(jac), gr)
    close(gr, po.grad(px), 20 * tol, 20 * tol, 'gradient of a polynomial')
    # The same by the library evaluation.
    ii = Integral('i', coors=xi, weights=np.ones(len(xi)), order='custom')
    if reg.name == 'Omega' or case['seed'] % 2:
        ev = var.evaluate(mode='val', integral=ii)
        close(ev[..., 0], po(px), tol, tol, 'evaluate()')
        ev = var.evaluate(mode='grad', integral=ii)
        close(ev, po.grad(px), 20 * tol, 20 * tol, 'evaluate(grad)')
    mask = pick(case['seed'] + 5, len(cells), 0.5)
    m2 = np.zeros(len(conn), dtype=bool)
    m2[cells[mask]] = True
    sreg = fun_region(dom, 'Part', m2)
    for mode, ref in (('val', po(px)[..., None]), ('grad', po.grad(px))):
        ev = var.evaluate(mode=mode, region=sreg, integral=ii)
        close(ev, ref[mask], 20 * tol, 20 * tol, 'evaluate(%s) in a part of the region' % mode)
    field.clear_qp_basis()

    # DOFs in regions.
    if 1:
        mask = pick(case['seed'] + 2, len(conn), 0.4)
        creg = fun_region(dom, 'Rc', mask)
        ents = set()
        for c in conn[np.where(mask)[0]]:
            for t, vv in cell_ents(g, c, k).items():
                ents.update(vv)
        ref = {d for d, e in ent.items() if e in ents}
        got = np.asarray(field.get_dofs_in_region(creg)).astype(int)
        check(set(got.tolist()) == ref, 'DOFs in a cell region: %s instead of %s',
              sorted(set(got.tolist())), sorted(ref))
        fm = pick(case['seed'] + 3, dom.cmesh.num[dim - 1], 0.3)
        freg = facet_region(dom, 'Rf', np.where(fm)[0])
        fcon = dom.cmesh.get_conn(dim - 1, 0) if dim > 1 else None
        ents = set()
        for f in np.where(fm)[0]:
            if dim == 1:
                ents.add(frozenset([int(f)]))
                continue
            vv = [int(i) for i in fcon.indices[fcon.offsets[f]:fcon.offsets[f + 1]]]
            ents.add(frozenset(vv))
            for c in conn:
                if set(vv) <= set(int(i) for i in c):
                    for t, ee in cell_ents(g, c, k).items():
                        ents.update(e for e in ee if e <= set(vv))
        ref = {d for d, e in ent.items() if e in ents}
        got = set(np.asarray(field.get_dofs_in_region(freg)).astype(int).tolist())
        check(got == ref, 'DOFs in a facet region: %s instead of %s', sorted(got), sorted(ref))
        vm = pick(case['seed'] + 4, len(coors), 0.3)
        vreg = fun_region(dom, 'Rv', vm, kind='vertex')
        got = set(np.asarray(field.get_dofs_in_region(vreg)).astype(int).tolist())
        ref = {d for d, e in ent.items() if len(e) == 1 and vm[list(e)[0]]}
        check(got == ref, 'DOFs in a vertex region')
        check(np.array_equal(np.sort(field.get_vertices()),
                             np.sort(np.array([list(v)[0] for v in vs]))), 'get_vertices()')
    return {'nontrivial': len(inner) > 0 and k >= 1,
            'classes': ['%s-%s-%d' % (g, fam, k), 'sub%d' % case['sub'], case['how']]}


@st.composite
def s_space(draw, item):
    g, fam = item.split(':')
    lo, hi = order_range(g, fam)
    affine = draw(st.booleans())
    kw = {'jit': 0} if affine else {}
    mc = 2 if g == '3_8' else None
    mesh = draw(gen.cases([g], max_cells=mc, **kw))
    if mesh['jit'] == 0 or g in ('1_2', '2_3', '3_4'):
        affine = True
    return dict(mesh=mesh, fam=fam, affine=affine, order=draw(st.integers(lo, hi)),
                nc=draw(st.sampled_from([1, 1, 2, 3])), sub=draw(st.sampled_from([0, 0, 1])),
                how=draw(st.sampled_from(['fun', 'dofs', 'coors'] if fam in NODAL
                                         else ['l2', 'l2', 'h1'])),
                seed=draw(st.integers(0, 10 ** 6)))


def run_disc(case):
    """Discontinuous and piecewise constant fields."""
    rs = np.random.RandomState(case['seed'])
    dom, r, g, conn, reg, cells = setup(case)
    dim = int(g[0])
    nc, k = case['nc'], case['order']
    coors = dom.mesh.coors
    x = coors[conn[cells]]
    xi = ref_points(g, rs, 4)
    bf, _ = gen.ref_shape(g, xi)
    px = np.einsum('qv,cvd->cqd', bf, x)
    if case['what'] == 'l2':
        field = Field.from_args('f', np.float64, nc, reg, approx_order=0, space='L2',
                                poly_space_basis='constant')
        check(field.n_nod == 1, 'constant field has %d DOFs', field.n_nod)
        var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
        val = rs.uniform(-1, 1, nc)
        var.set_data(val)
        ev = var.evaluate(mode='val', integral=Integral('i', order=2))
        check(ev.shape[0] == len(cells) and ev.shape[2:] == (nc, 1), 'shape %s', ev.shape)
        close(ev[..., 0], np.broadcast_to(val, ev.shape[:-1]), 0, 1e-14, 'constant value')
        return {'nontrivial': len(cells) > 1, 'classes': ['l2']}
    if case['what'] == 'zero':
        k = 0
        field = Field.from_args('f', np.float64, nc, reg, approx_order=0)
    else:
        field = Field.from_args('f', np.float64, nc, reg, approx_order=k,
                                poly_space_basis='lagrange_discontinuous')
    econn = np.asarray(field.econn)
    ps = field.poly_space
    check(econn.shape == (len(cells), ps.n_nod) and field.n_nod == econn.size and
          len(np.unique(econn)) == econn.size, 'DOFs of a discontinuous field')
    po = Poly(rs, dim, k, nc)
    coef = rs.uniform(-1, 1, (len(cells), nc))
    vec = np.empty((field.n_nod, nc))
    bn, _ = gen.ref_shape(g, ps.node_coors)
    nodes = np.einsum('nv,cvd->cnd', bn, x)
    if case['what'] != 'zero' or True:
        vec[econn] = po(nodes) * coef[:, None]
    if k == 0:
        close(np.asarray(field.get_coor())[econn], nodes, 1e-12, 1e-13, 'node coordinates')
    var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    var.set_data(vec.ravel())
    ii = Integral('i', coors=xi, weights=np.ones(len(xi)), order='custom')
    ev = var.evaluate(mode='val', integral=ii)
    close(ev[..., 0], po(px) * coef[:, None], 1e-9, 1e-10, 'piecewise polynomial')
    if case['what'] == 'zero':
        nods, vals = field.set_dofs(po)
        v = np.empty((field.n_nod, nc))
        v[nods] = np.asarray(vals).reshape(len(nods), nc)
        close(v[econn[:, 0]], po(nodes[:, 0]), 1e-12, 1e-12, 'set_dofs()')
    return {'nontrivial': len(cells) > 1, 'classes': ['%s-%s' % (g, case['what'])]}


@st.composite
def s_disc(draw, item=None):
    mesh = draw(gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2))
    return dict(mesh=mesh, order=draw(st.integers(1, 3)), nc=draw(st.sampled_from([1, 2, 3])),
                sub=draw(st.sampled_from([0, 0, 1])),
                what=draw(st.sampled_from(['l2', 'zero', 'disc', 'disc'])),
                seed=draw(st.integers(0, 10 ** 6)))


def run_surface(case):
    """Fields on facets, and traces of volume fields on facets."""
    rs = np.random.RandomState(case['seed'])
    dom, r = gen.domain(case['mesh'])
    g = r['descs'][0]
    dim = int(g[0])
    nc, k, fam = case['nc'], case['order'], case['fam']
    coors = dom.mesh.coors
    omega = dom.create_region('Omega', 'all')
    surf = dom.create_region('S', 'vertices of surface', 'facet')
    fs = np.asarray(surf.facets)
    sel = fs[pick(case['seed'] + 1, len(fs), case['frac'])]
    gamma = facet_region(dom, 'G', sel)
    fcon = dom.cmesh.get_conn(dim - 1, 0)
    fv = [fcon.indices[fcon.offsets[f]:fcon.offsets[f + 1]].astype(int) for f in sel]
    nfv = len(fv[0])
    dom.create_surface_group(gamma)
    ks = 1  # Surface fields of higher orders raise.
    sf = make_field('sf', nc, gamma, ks, fam)
    # Number of DOFs: vertices + edges (3D) + facet interiors.
    vs = {int(v) for f in fv for v in f}
    es = set()
    if dim == 3:
        ec = dom.cmesh.get_conn(2, 1)
        for f in sel:
            es.update(int(e) for e in ec.indices[ec.offsets[f]:ec.offsets[f + 1]])
    n_ref = len(vs) + (ks - 1) * len(es)
    check(sf.n_nod == n_ref, 'surface field: %d DOFs instead of %d', sf.n_nod, n_ref)
    vf = make_field('vf', nc, omega, k, fam)
    pos = Poly(rs, dim, ks, nc)
    pov = Poly(rs, dim, k if (fam != 'serendipity' or case['affine']) else 1, nc)
    order = case['iorder']
    ii = Integral('i', order=order)
    got = []
    for field, po, kk in ((sf, pos, ks), (vf, pov, k)):
        if fam in NODAL:
            var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
            var.set_from_function(lambda x: po(x))
        else:
            continue
        field.setup_surface_data(gamma)
        geo, _ = field.get_mapping(gamma, ii, 'facet')
        from sfepy.discrete.common.mappings import get_physical_qps
        qps = get_physical_qps(gamma, ii)
        px = qps.values.reshape((len(sel), -1, dim))
        ev = var.evaluate(mode='val', region=gamma, integral=ii, integration='facet')
        close(ev[..., 0], po(px), 1e-9, 1e-9, 'polynomial on the surface (%s)' % field.name)
        got.append(px)
        # Area / moments by own formula (affine facets).
        w = np.asarray(geo.det)[..., 0, 0]
        check(w.shape == px.shape[:2], 'surface weights shape')
        for f, ww, pp in zip(fv, w, px):
            if nfv == 2:
                a = np.linalg.norm(coors[f[1]] - coors[f[0]])
                cen = coors[f].mean(0)
            elif nfv == 3:
                a = 0.5 * np.linalg.norm(np.cross(coors[f[1]] - coors[f[0]],
                                                  coors[f[2]] - coors[f[0]]))
                cen = coors[f].mean(0)
            else:
                continue
            close(ww.sum(), a, 1e-10, 0, 'facet measure')
            close((ww[:, None] * pp).sum(0), a * cen, 1e-10, 1e-12, 'facet centre')
    # Nodes of facets lie on them; facet connectivity of both fields.
    if fam in NODAL:
        for field, local, kk in ((vf, False, k), (sf, True, ks)):
            lc = np.asarray(field.get_econn('facet', gamma, local=False))
            nn = np.asarray(field.get_coor())
            if not local:
                used = set(lc.ravel().tolist())
                ref = set(int(i) for i in field.get_dofs_in_region(gamma))
                check(used == ref, 'facet connectivity does not match the DOFs in the region')
            for f, dofs in zip(fv, lc):
                x0 = coors[f[0]]
                T = (coors[f[1:]] - x0)
                d = nn[dofs] - x0
                if nfv == 4 and not case['affine']:
                    continue
                res = d - (np.linalg.lstsq(T.T, d.T, rcond=None)[0].T @ T)
                close(res, 0, 0, 1e-10, 'nodes not in the facet')
                check(len(dofs) == {2: kk + 1, 3: (kk + 1) * (kk + 2) // 2,
                                    4: (kk + 1) ** 2 if fam != 'serendipity' else 4 * kk}[nfv],
                      'number of facet nodes %d', len(dofs))
                for v in f:
                    check(np.abs(nn[dofs] - coors[v]).sum(1).min() < 1e-12,
                          'facet vertex is not among its nodes')
        close(got[0], got[1], 1e-13, 1e-13, 'quadrature points')
    # Projection onto facets.
    po = pov
    if case['proj'] and fam in ('lagrange', 'bernstein', 'sem') and (case['affine'] or nfv < 4):
        pr = project_to_facets(gamma, lambda x: po(x), nc, vf)
        nods = np.unique(vf.get_dofs_in_region(gamma))
        check(pr.shape == (len(nods), nc), 'projection shape %s', pr.shape)
        var = FieldVariable('u', 'parameter', vf, primary_var_name='(set-to-None)')
        v = np.zeros((vf.n_nod, nc))
        v[nods] = pr
        var.set_data(v.ravel())
        vf.clear_mappings()
        vf.clear_qp_basis()
        ev = var.evaluate(mode='val', region=gamma, integral=ii, integration='facet')
        from sfepy.discrete.common.mappings import get_physical_qps
        px = get_physical_qps(gamma, ii).values.reshape((len(sel), -1, dim))
        close(ev[..., 0], po(px), 1e-8, 1e-8, 'projection to facets')
    return {'nontrivial': len(sel) > 1, 'classes': ['%s-%s-%d' % (g, fam, k)]}


@st.composite
def s_surface(draw, item):
    g, fam = item.split(':')
    affine = draw(st.booleans())
    kw = {'jit': 0} if affine else {}
    mesh = draw(gen.cases([g], max_cells=2, **kw))
    if mesh['jit'] == 0 or g in ('2_3', '3_4'):
        affine = True
    return dict(mesh=mesh, fam=fam, affine=affine, order=draw(st.integers(1, 3)),
                nc=draw(st.sampled_from([1, 2])), frac=draw(st.sampled_from([0.3, 0.7, 1.0])),
                iorder=draw(st.integers(1, 4)), proj=draw(st.booleans()),
                seed=draw(st.integers(0, 10 ** 6)))


def run_proj(case):
    """Projections between spaces, mass matrix, vertex data."""
    rs = np.random.RandomState(case['seed'])
    dom, r, g, conn, reg, cells = setup(case)
    dim = int(g[0])
    coors = dom.mesh.coors
    k, k2 = case['order'], case['order2']
    x = coors[conn[cells]]
    xi = ref_points(g, rs, 4)
    bf, _ = gen.ref_shape(g, xi)
    px = np.einsum('qv,cvd->cqd', bf, x)
    field = make_field('f', 1, reg, k, case['fam'])
    M = create_mass_matrix(field).toarray()
    check(M.shape == (field.n_nod,) * 2, 'mass matrix shape')
    close(M, M.T, 1e-13, 1e-15, 'mass matrix symmetry')
    pts, w, _ = gen.physical_quad(coors, conn[cells], g, 2)
    if case['affine'] and case['fam'] != 'lobatto':
        # Exact for affine cells: integral of products of polynomials.
        close(M.sum(), w.sum(), 1e-10, 0, 'mass of the whole domain')
        if case['fam'] in NODAL:
            p1, p2 = Poly(rs, dim, k), Poly(rs, dim, k)
            pts, w, _ = gen.physical_quad(coors, conn[cells], g, 2 * k)
            nn = field.get_coor()
            close((p1(nn).T @ M @ p2(nn))[0, 0], (w * (p1(pts) * p2(pts))[..., 0]).sum(),
                  1e-9, 1e-10, 'mass matrix product of polynomials')
    check(np.linalg.eigvalsh(M).min() > 0, 'mass matrix is not positive definite')

    # Projection of a lower order function.
    tgt = make_field('t', 1, reg, k2, case['fam'])
    var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    tv = FieldVariable('v', 'parameter', tgt, primary_var_name='(set-to-None)')
    po = Poly(rs, dim, min(k, k2) if (case['affine'] or case['fam'] != 'serendipity') else 1)
    if case['fam'] in NODAL:
        var.set_from_function(lambda z: po(z))
        if case['what'] == 'var':
            make_l2_projection(tv, var)
        elif case['what'] == 'qp':
            o = 2 * k2
            ii = Integral('i', order=o)
            data = var.evaluate(mode='val', integral=ii)
            make_l2_projection_data(tv, data.copy(), order=o)
        elif case['what'] == 'qpauto':
            ii = Integral('i', order=2 * k2)
            data = var.evaluate(mode='val', integral=ii)
            make_l2_projection_data(tv, data.copy())
        elif case['what'] == 'comp':
            tf = make_field('t2', 2, reg, k2, case['fam'])
            tt = FieldVariable('w', 'parameter', tf, primary_var_name='(set-to-None)')
            po2 = Poly(rs, dim, min(k, k2) if po.es[-1] else 1, 2)
            po2.es, po2.a = po.es, rs.uniform(-1, 1, (len(po.es), 2))
            ff = make_field('f2', 2, reg, k, case['fam'])
            fv = FieldVariable('z', 'parameter', ff, primary_var_name='(set-to-None)')
            fv.set_from_function(lambda z: po2(z))
            data = fv.evaluate(mode='val', integral=Integral('i', order=2 * k2))
            project_by_component(tt, data, tv, 2 * k2)
            ii = Integral('i', coors=xi, weights=np.ones(len(xi)), order='custom')
            close(tt.evaluate(mode='val', integral=ii)[..., 0], po2(px), 1e-7, 1e-7,
                  'project_by_component()')
        if case['what'] != 'comp':
            ii = Integral('i', coors=xi, weights=np.ones(len(xi)), order='custom')
            tgt.clear_qp_basis()
            close(tv.evaluate(mode='val', integral=ii)[..., 0], po(px), 1e-7, 1e-7,
                  'L2 projection (%s)' % case['what'])
        # Vertex data.
        lin = Poly(rs, dim, 1)
        vv = FieldVariable('q', 'parameter', field, primary_var_name='(set-to-None)')
        vv.set_from_mesh_vertices(lin(coors) if not case['sub'] else lin(coors[field.get_vertices()]))
        nn = field.get_coor()
        if case['fam'] != 'sem':
            close(vv().ravel(), lin(nn).ravel(), 1e-11, 1e-11, 'set_from_mesh_vertices()')
        if 1:
            cst = np.ones((len(cells), len(Integral('i', order=2).get_qp(g)[1]), 1, 1)) * 2.5
            vv.set_from_qp(cst, Integral('i', order=2))
            close(vv().ravel(), 2.5, 1e-12, 0, 'set_from_qp() of a constant')
    return {'nontrivial': len(cells) > 1, 'classes': [g, case['fam'], case['what']]}


@st.composite
def s_proj(draw, item):
    g, fam = item.split(':')
    affine = draw(st.booleans())
    kw = {'jit': 0} if affine else {}
    mesh = draw(gen.cases([g], max_cells=2, **kw))
    if mesh['jit'] == 0 or g in ('1_2', '2_3', '3_4'):
        affine = True
    mo = min(MAXO[g], 3)
    return dict(mesh=mesh, fam=fam, affine=affine, order=draw(st.integers(1, mo)),
                order2=draw(st.integers(1, mo)), sub=draw(st.sampled_from([0, 0, 1])),
                what=draw(st.sampled_from(['qp', 'qpauto', 'comp'] +
                                          ['var', 'var'] * (fam == 'lagrange'))),
                seed=draw(st.integers(0, 10 ** 6)))


ITEMS = ['%s:%s' % (g, f) for g in sorted(FAMS) for f in FAMS[g]]
SURF = ['2_3:lagrange', '2_4:lagrange', '3_4:lagrange', '3_8:lagrange', '3_8:serendipity',
        '2_4:sem', '3_8:sem', '2_3:bernstein', '3_4:bernstein']
PROJ = ['1_2:lagrange', '2_3:lagrange', '2_4:lagrange', '3_4:lagrange', '3_8:lagrange',
        '2_4:serendipity', '2_4:sem', '2_3:bernstein', '2_4:lobatto']

SUBS = [
    Sub('space', s_space, run_space, n=16, items=ITEMS),
    Sub('disc', s_disc, run_disc, n=60),
    Sub('surface', s_surface, run_surface, n=16, items=SURF),
    Sub('proj', s_proj, run_proj, n=10, items=PROJ),
]
