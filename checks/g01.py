"""G01: geometric mappings: change of variables, normals, divergence theorem."""
import numpy as np
import hypothesis.strategies as st

import gen
from fe import fun_region, facet_region, pick
from harness import Sub, check, close
from f01 import Poly, make_field, bases, FAMS
from f02 import invert

from sfepy.discrete import FieldVariable, Integral
from sfepy.discrete.common.mappings import (Mapping, get_physical_qps, get_jacobian,
                                            get_normals, get_mapping_data)
from sfepy.discrete.fem.fields_base import set_mesh_coors

PROP = 'G01'
RULE = ('Cases: random meshes of every cell kind (rotated, mirrored-free, dropped cells, jittered), '
        'fields of every basis family on the domain, integrals of random orders, cell and facet '
        'subregions (incl. interior facets seen from a side), moved meshes, surfaces in 3D.  '
        'Oracle: own isoparametric map, own normals, divergence theorem.  Non-trivial: more '
        'than one cell, or more than one facet.')
ASSUMPTIONS = ['facet mappings: nodal bases of order > 0 (others are rejected by the library)',
               'facet_extra (gradients on facets): not wedges (rejected by the library)',
               'mappings are updated after moving the mesh by clearing them, as documented']

GEL = {2: '2_3', 3: '3_4'}


def jac_data(g, x, xi):
    """Isoparametric map: bf (q, v), J (c, q, i, j) = dx_i / dxi_j, det."""
    bf, bg = gen.ref_shape(g, xi)
    jac = np.einsum('cvi,qvj->cqij', x, bg)
    return bf, jac


def qp_of(integral, g):
    qp, w = integral.get_qp(g)
    return np.asarray(qp), np.asarray(w)


def check_cells(geo, field, g, x, integral, lcells, tag):
    qp, w = qp_of(integral, g)
    bf, jac = jac_data(g, x, qp)
    det = np.linalg.det(jac)
    check(geo.det.shape == (len(x), len(w), 1, 1), '%s: det shape %s', tag, geo.det.shape)
    close(geo.det[..., 0, 0], det * w, 1e-10, 0, tag + ': volume elements')
    close(geo.volume[:, 0, 0, 0], (det * w).sum(1), 1e-10, 0, tag + ': element volumes')
    ebf = bases(field, qp)
    ebg = bases(field, qp, True)
    ebf = ebf[lcells] if ebf.shape[0] > 1 else ebf
    ebg = ebg[lcells] if ebg.shape[0] > 1 else ebg
    gbf = np.broadcast_to(geo.bf, (len(x),) + geo.bf.shape[1:])
    close(gbf, np.broadcast_to(ebf, gbf.shape), 1e-10, 1e-10, tag + ': basis')
    ref = np.einsum('cqji,cqjn->cqin', np.linalg.inv(jac), np.broadcast_to(
        ebg, (len(x),) + ebg.shape[1:]))
    scale = np.abs(ref).max()
    close(geo.bfg, ref, 1e-9, 1e-10 * max(scale, 1), tag + ': basis gradients')
    check(int(geo.dim) == int(g[0]) and geo.n_el == len(x) and geo.n_qp == len(w),
          tag + ': mapping sizes')
    # Integration and averaging of data.
    rs = np.random.RandomState(len(x))
    data = rs.randn(len(x), len(w), 2, 3)
    out = np.empty((len(x), 1, 2, 3))
    geo.integrate(out, data, 0)
    ref = (data * (det * w)[..., None, None]).sum(1, keepdims=True)
    close(out, ref, 1e-10, 1e-12, tag + ': integration')
    geo.integrate(out, data, 1)
    close(out, ref / (det * w).sum(1)[:, None, None, None], 1e-9, 1e-11, tag + ': averaging')
    return bf


def run_cells(case):
    dom, r = gen.domain(case['mesh'])
    g = r['descs'][0]
    dim = int(g[0])
    conn = r['conns'][0]
    coors = r['coors']
    n = len(conn)
    conn = np.asarray(dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
    omega = dom.create_region('Omega', 'all')
    freg, fcells = omega, np.arange(n)
    if case['fsub']:
        m = pick(case['seed'] + 7, n, 0.7)
        freg = fun_region(dom, 'F', m)
        fcells = np.where(m)[0]
    m = np.zeros(n, bool)
    m[fcells[pick(case['seed'], len(fcells), 0.6)]] = True
    sub = fun_region(dom, 'Sub', m)
    sc = np.where(m)[0]
    fam = FAMS[g][case['fam'] % len(FAMS[g])]
    order = 1 if (fam == 'bubble' or g == '3_6') else case['order']
    if fam == 'serendipity':
        order = min(order, 3)
    field = make_field('f', 'scalar', freg, order, fam)
    io = min(case['iorder'], 2) if g == '3_6' else case['iorder']
    i1 = Integral('i', order=io)
    i2 = Integral('i', order=io + 1)
    for reg, cells in ((freg, fcells), (sub, sc), (freg, fcells)):
        for ii in (i1, i2):
            geo, mapping = field.get_mapping(reg, ii, 'cell')
            lc = np.searchsorted(fcells, cells)
            bf = check_cells(geo, field, g, coors[conn[cells]], ii, lc, reg.name)
            qp, w = qp_of(ii, g)
            ref = np.einsum('qv,cvi->cqi', bf, coors[conn[cells]])
            pq = get_physical_qps(reg, ii)
            check(pq.num == ref.shape[0] * ref.shape[1] and tuple(pq.shape) == ref.shape,
                  'number of quadrature points')
            close(pq.values.reshape(ref.shape), ref, 1e-10, 1e-12, 'physical points')
            close(mapping.get_physical_qps(qp), ref, 1e-10, 1e-12, 'physical points (mapping)')
            m2 = Mapping.from_args(reg, 'v')
            close(m2.get_physical_qps(qp), ref, 1e-10, 1e-12, 'physical points (from_args)')
            close(get_jacobian(field, ii, reg, 'cell'), geo.det, 0, 0, 'get_jacobian')
            close(get_mapping_data('volume', field, ii, reg, 'cell'), geo.volume, 0, 0,
                  'get_mapping_data')
            # Integration of a polynomial through the public term evaluation data.
            close((geo.det[..., 0, 0][..., None] * ref).sum((0, 1)),
                  moments(g, coors, conn[cells], ref, geo.det[..., 0, 0], io),
                  1e-9, 1e-11, 'first moments')
    return {'nontrivial': n > 1,
            'classes': [g, fam, 'order%d' % order, 'fsub%d' % case['fsub'],
                        'drop%d' % bool(case['mesh']['drop'])]}


def moments(g, coors, conn, ref, det, order):
    """Exact first moments if the order suffices, otherwise as computed."""
    if order < {'1_2': 2, '2_3': 2, '2_4': 4, '3_4': 2, '3_6': 7, '3_8': 9}[g]:
        return (det[..., None] * ref).sum((0, 1))
    p, w, _ = gen.physical_quad(coors, conn, g, 10)
    return (w[..., None] * p).sum((0, 1))


def strat_cells(tier):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_6', '3_8'], max_cells=3),
        fam=st.integers(0, 9), order=st.integers(1, 3), iorder=st.sampled_from([1, 2, 3, 4, 5, 9]),
        fsub=st.integers(0, 1), seed=st.integers(0, 10 ** 6)))


# Facets.

def facet_frame(g, f, xc, xi):
    """Tangents and area elements of local facet f at the cell reference points xi."""
    ref = gen.REF[g][list(f)]
    _, bg = gen.ref_shape(g, xi)
    J = np.einsum('vi,qvj->qij', xc, bg)
    dim = xc.shape[1]
    if len(f) == 1:
        s = np.sign(ref[0, 0] - 0.5)
        return np.ones(len(xi)), np.full((len(xi), 1), s)
    a = ref[1] - ref[0]
    t1 = J @ a
    if dim == 2:
        nrm = np.stack([t1[:, 1], -t1[:, 0]], 1)
    else:
        b = ref[-1] - ref[0]
        nrm = np.cross(t1, J @ b)
    area = np.linalg.norm(nrm, axis=1)
    nrm = nrm / area[:, None]
    # Outward: away from the centre of the reference cell (Nanson).
    nref = ref.mean(0) - gen.REF[g].mean(0)
    v = np.einsum('qij,j->qi', J, nref)
    # The sign of n . (J nref) is not decisive for skewed cells; use the cofactor of the
    # reference normal instead.
    if dim == 2:
        rn = np.array([a[1], -a[0]])
    else:
        rn = np.cross(a, b)
    rn = rn * np.sign(rn @ nref)
    cof = np.einsum('q,qji,j->qi', np.linalg.det(J), np.linalg.inv(J), rn)
    del v
    return area, nrm * np.sign((cof * nrm).sum(1))[:, None]


def check_facets(field, reg, g, coors, conn, integral, tag, own=None):
    """Check the facet mapping; return points, weights, normals by facets."""
    geo, _ = field.get_mapping(reg, integral, 'facet')
    fi = np.asarray(reg.get_facet_indices())
    if own is not None:
        check(set(map(tuple, fi.tolist())) == own, '%s: facets %s instead of %s', tag,
              sorted(map(tuple, fi.tolist())), sorted(own))
    check(geo.det.shape[0] == len(fi), tag + ': number of facets')
    pq = get_physical_qps(reg, integral)
    pts = pq.values.reshape(pq.shape)
    check(pts.shape[:2] == geo.det.shape[:2], tag + ': number of points')
    det = geo.det[..., 0, 0]
    nrm = geo.normal[..., 0]
    close(geo.volume[:, 0, 0, 0], det.sum(1), 1e-12, 0, tag + ': facet measures')
    loc = gen.facets(g)
    close(get_normals_any(field, integral, reg), geo.normal, 0, 0, 'get_normals')
    wref = {}
    for f in loc:
        nv = len(f)
        if nv not in wref:
            gname = {1: '0_1', 2: '1_2', 3: '2_3', 4: '2_4'}[nv]
            wref[nv] = qp_of(integral, gname)[1] if nv > 1 else np.ones(1)
    gfac = field.gel.get_facet_conn() if hasattr(field.gel, 'get_facet_conn') else None
    del gfac
    cf = facet_vertices(field, g)
    for i, (c, lf) in enumerate(fi):
        fv = cf[lf]
        xc = coors[conn[c]]
        ok = np.abs(det[i]) > 0
        nq = len(wref[len(fv)])
        check(ok.sum() == nq, '%s: %d points of facet instead of %d', tag, ok.sum(), nq)
        p = pts[i][ok]
        ref = gen.REF[g][list(fv)]
        # Points lie on the facet.
        if len(xc[0]) > 1:
            xi, out = invert_any(g, xc, p)
            a = ref[1:] - ref[0]
            res = xi - ref[0]
            if len(a):
                q, _ = np.linalg.qr(a.T)
                q = q[:, :min(len(a), xc.shape[1] - 1)]
                res = res - res @ q @ q.T
            close(res, 0, 0, 1e-8, tag + ': points out of the facet')
            check((out < 1e-8).all(), tag + ': points out of the cell')
        else:
            xi = ref.copy()
            close(p, xc[[fv[0]]], 0, 1e-12, tag + ': facet point')
        area, n = facet_frame(g, fv, xc, xi)
        close(nrm[i][ok], n, 1e-8, 1e-8, tag + ': outward normals')
        close(np.sort(det[i][ok] / area), np.sort(wref[len(fv)]), 1e-8, 1e-10,
              tag + ': facet elements')
        # Points go with their weights: moments of the facet in the reference cell.
        if nq > 1 and integral.order >= 1:
            cen = (det[i][ok] / area) @ xi / (det[i][ok] / area).sum()
            close(cen, ref.mean(0), 1e-8, 1e-8, tag + ': facet points and weights')
        if nq > 1 and integral.order >= 2 and len(fv) < 4:
            w = det[i][ok] / area
            m2 = np.einsum('q,qi,qj->ij', w, xi, xi) / w.sum()
            s = ref.sum(0)
            k = len(fv)
            close(m2, (ref.T @ ref + np.outer(s, s)) / (k * (k + 1.0)), 1e-8, 1e-8,
                  tag + ': second moments of facet points')
    return pts, det, nrm, fi


def get_normals_any(field, integral, reg):
    return get_mapping_data('normal', field, integral, region=reg, integration='facet')


def facet_vertices(field, g):
    """Local vertices of the facets in the numbering of the library."""
    gel = field.gel
    d = int(g[0])
    if d == 1:
        return [(0,), (1,)]
    ent = np.asarray(gel.edges if d == 2 else gel.faces)
    out = []
    for e in ent:
        t = []
        for v in e:
            if int(v) not in t:
                t.append(int(v))
        out.append(tuple(t))
    own = set(frozenset(f) for f in gen.facets(g))
    check(set(map(frozenset, out)) == own, 'facets of the reference cell')
    cyc = {frozenset(f): tuple(f) for f in gen.facets(g)}
    return [cyc[frozenset(f)] for f in out]


def invert_any(g, xc, p):
    if g != '3_6':
        xi, out = invert(g, xc[None], p)
        return xi[0], out[0]
    xi = np.full((len(p), 3), 1 / 3.)
    for _ in range(40):
        bf, bg = gen.ref_shape(g, xi)
        J = np.einsum('vi,qvj->qij', xc, bg)
        d = np.linalg.solve(J, (p - bf @ xc)[..., None])[..., 0]
        xi = xi + np.clip(d, -1, 1)
    out = np.maximum((-xi).max(1), np.maximum(xi[:, 2] - 1, xi[:, 0] + xi[:, 1] - 1))
    return xi, out


def own_boundary(dom, g, conn, mask):
    """Facets with exactly one cell in mask: {(cell, local facet of the library)}."""
    cells = np.where(mask)[0]
    cnt = {}
    for c in cells:
        for k, f in enumerate(gen.facets(g)):
            cnt.setdefault(frozenset(int(v) for v in conn[c][list(f)]), []).append((int(c), k))
    return {k: v[0] for k, v in cnt.items() if len(v) == 1}


def setup_facets(case):
    mc = case['mesh']
    if mc['kind'] == '3_6':
        # Triangular faces of wedges are not identified in general (documented).
        mc = dict(mc, shape=mc['shape'][:2] + [1])
    dom, r = gen.domain(mc)
    g = r['descs'][0]
    dim = int(g[0])
    n = len(r['conns'][0])
    conn = np.asarray(dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
    m = np.ones(n, bool)
    if case['sub']:
        m = pick(case['seed'], n, 0.6)
    reg = fun_region(dom, 'Sub', m)
    bnd = own_boundary(dom, g, conn, m)
    fc = np.asarray(dom.cmesh.get_conn(dim - 1, 0).indices) if dim > 1 else None
    off = np.asarray(dom.cmesh.get_conn(dim - 1, 0).offsets) if dim > 1 else None
    sel, own = [], set()
    nf = len(off) - 1 if dim > 1 else dom.cmesh.n_coor
    part = None
    if case['part']:
        part = np.random.RandomState(case['seed'] + 1).rand(nf) < 0.5
    rows = {}
    for i in range(nf):
        k = frozenset(fc[off[i]:off[i + 1]].astype(int).tolist()) if dim > 1 else frozenset([i])
        rows[i] = k
        if k in bnd and (part is None or part[i]):
            sel.append(i)
    if not sel:
        sel = [i for i in rows if rows[i] in bnd][:1]
    gamma = facet_region(dom, 'Gamma', sel, parent='Sub')
    return dom, r, g, conn, m, reg, gamma, bnd, [rows[i] for i in sel]


def run_facets(case):
    dom, r, g, conn, m, reg, gamma, bnd, sel = setup_facets(case)
    coors = r['coors']
    dim = int(g[0])
    fam = {'1_2': 'lagrange'}.get(g, 'lagrange')
    if case['seren'] and g in ('2_4', '3_8'):
        fam = 'serendipity'
    order = 1 if g == '3_6' else case['order']
    omega = dom.create_region('Omega', 'all')
    freg = reg if case['fsub'] else omega
    nc = case['nc']
    field = make_field('f', nc, freg, order, fam)
    dom.create_surface_group(gamma)
    field.setup_surface_data(gamma)
    ii = Integral('i', order=case['iorder'])
    cfl = facet_vertices(field, g)
    own = set()
    for k in sel:
        c, lf = bnd[k]
        fv = frozenset(gen.facets(g)[lf])
        own.add((c, [frozenset(f) for f in cfl].index(fv)))
    pts, det, nrm, fi = check_facets(field, gamma, g, coors, conn, ii, 'facets', own)
    # Values and gradients of polynomials on facets.
    rs = np.random.RandomState(case['seed'])
    affine = g in ('1_2', '2_3', '3_4') or not case['mesh']['jit']
    po = Poly(rs, dim, order if affine and not (fam == 'serendipity' and order > 1 and False)
              else 1, nc)
    if fam == 'serendipity' and not affine:
        po = Poly(rs, dim, 1, nc)
    var = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    var.set_data(po(field.get_coor()).ravel())
    ok = det != 0
    ev = var.evaluate(mode='val', region=gamma, integral=ii, integration='facet')
    close(ev[ok][..., 0], po(pts[ok]), 1e-9, 1e-9, 'values on facets')
    extra = g != '3_6' and dim > 1
    if extra:
        ev = var.evaluate(mode='grad', region=gamma, integral=ii, integration='facet_extra')
        close(ev[ok], po.grad(pts[ok]), 1e-8, 1e-8, 'gradients on facets')
        ge, _ = field.get_mapping(gamma, ii, 'facet_extra')
        close(ge.det[..., 0, 0], det, 1e-12, 0, 'facet_extra: facet elements')
        close(ge.normal[..., 0], nrm, 1e-12, 1e-14, 'facet_extra: normals')
    # Divergence theorem on the union of cells.
    full = not case['part']
    if full and not (g == '3_6' and case['mesh']['jit']):
        k = 1 if not affine or g == '3_6' else 2
        io = {'1_2': 2, '2_3': 2, '2_4': 5, '3_4': 3, '3_6': 3, '3_8': 9}[g]
        ij = Integral('j', order=io)
        F = Poly(rs, dim, k, dim)
        geo, _ = field.get_mapping(gamma, ij, 'facet')
        pg = get_physical_qps(gamma, ij)
        pv = pg.values.reshape(pg.shape)
        lhs = (geo.det[..., 0] * geo.normal[..., 0] * F(pv)).sum()
        scale = np.abs(geo.det[..., 0] * geo.normal[..., 0] * F(pv)).sum()
        gv, _ = field.get_mapping(reg, ij, 'cell')
        pc = get_physical_qps(reg, ij)
        pc = pc.values.reshape(pc.shape)
        rhs = (gv.det[..., 0, 0] * np.trace(F.grad(pc), axis1=-2, axis2=-1)).sum()
        close(lhs, rhs, 1e-9, 1e-10 * max(scale, 1), 'divergence theorem')
    return {'nontrivial': len(sel) > 1,
            'classes': [g, fam, 'order%d' % order, 'sub%d' % case['sub'], 'nc%d' % nc,
                        'fsub%d' % case['fsub'], 'part%d' % case['part']]}


def strat_facets(tier):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_6', '3_8'], max_cells=2),
        order=st.integers(1, 3), iorder=st.integers(1, 5), sub=st.integers(0, 1),
        fsub=st.integers(0, 1), part=st.integers(0, 1), seren=st.integers(0, 1),
        nc=st.integers(1, 3), seed=st.integers(0, 10 ** 6)))


# Moved configuration.

def move(coors, rs):
    dim = coors.shape[1]
    while 1:
        m = np.eye(dim) + rs.uniform(-0.5, 0.5, (dim, dim))
        if np.linalg.det(m) > 0.1:
            break
    return coors @ m.T + rs.uniform(-1, 1, dim)


def run_moved(case):
    dom, r, g, conn, m, reg, gamma, bnd, sel = setup_facets(dict(case, sub=0, fsub=0))
    x0 = r['coors'].copy()
    rs = np.random.RandomState(case['seed'])
    order = 1 if g == '3_6' else case['order']
    omega = dom.create_region('Omega', 'all')
    field = make_field('f', 'scalar', omega, order, 'lagrange')
    dom.create_surface_group(gamma)
    field.setup_surface_data(gamma)
    ii = Integral('i', order=case['iorder'])
    cells = np.where(m)[0]

    def verify(x, tag):
        geo, _ = field.get_mapping(reg, ii, 'cell')
        check_cells(geo, field, g, x[conn[cells]], ii, cells, tag)
        fgeo, _ = field.get_mapping(gamma, ii, 'facet')
        fi = np.asarray(gamma.get_facet_indices())
        cf = facet_vertices(field, g)
        for i, (c, lf) in enumerate(fi):
            if len(cf[lf]) == 4 and case['mesh']['jit']:
                continue
            if g != '1_2':
                v = x[conn[c]][list(cf[lf])]
                ref = {2: lambda: np.linalg.norm(v[1] - v[0]),
                       3: lambda: 0.5 * np.linalg.norm(np.cross(v[1] - v[0], v[2] - v[0])),
                       4: lambda: np.linalg.norm(np.cross(v[1] - v[0], v[3] - v[0]))}[len(v)]()
                close(fgeo.volume[i, 0, 0, 0], ref, 1e-9, 0, tag + ': facet measure')
        return geo, fgeo

    g0, f0 = verify(x0, 'initial')
    field.save_mappings()
    x = x0
    for step, op in enumerate(case['ops']):
        actual = bool(case['act'])
        xn = move(x0 if op & 2 else x, rs)
        set_mesh_coors(dom, {'f': field}, xn, update_fields=True, actual=actual,
                       clear_all=False)
        if actual:
            close(dom.get_mesh_coors(), x0, 0, 0, 'reference coordinates')
        x = xn
        close(dom.get_mesh_coors(actual=True), x, 0, 0, 'actual coordinates')
        verify(x, 'moved %d' % step)
        s, _ = field.get_mapping(reg, ii, 'cell', get_saved=True)
        close(s.det, g0.det, 0, 0, 'saved mapping')
        check(s is g0, 'saved mapping replaced')
        # Coordinates of field nodes in the moved mesh.
        a = np.linalg.lstsq(np.c_[x0, np.ones(len(x0))], x, rcond=None)[0]
        case_aff = np.abs(np.c_[x0, np.ones(len(x0))] @ a - x).max() < 1e-9
        if case_aff and len(x0) > int(g[0]):
            nv = field.n_vertex_dof
            close(field.get_coor()[:nv], x[field.get_vertices()] if hasattr(field, 'get_vertices')
                  else x, 1e-10, 1e-10, 'coordinates of vertex nodes')
    field.clear_mappings(clear_all=True)
    s, _ = field.get_mapping(reg, ii, 'cell', get_saved=True)
    # Missing saved mappings belong to the undeformed configuration.
    xs = x0 if case['act'] else x
    check_cells(s, field, g, xs[conn[cells]], ii, cells, 'cleared saved mapping')
    return {'nontrivial': len(conn) > 1,
            'classes': [g, 'act%d' % case['act'], 'steps%d' % len(case['ops'])]}


def strat_moved(tier):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2),
        order=st.integers(1, 2), iorder=st.integers(1, 3), part=st.integers(0, 1),
        act=st.integers(0, 1), ops=st.lists(st.sampled_from([0, 2]), min_size=1, max_size=4),
        seed=st.integers(0, 10 ** 6)))


# Surfaces and lines in a space of a higher dimension.

def run_embedded(case):
    dom, r = gen.domain(case['mesh'])
    g = r['descs'][0]
    coors = r['coors']
    n = len(r['conns'][0])
    tdim = int(g[0])
    conn = np.asarray(dom.cmesh.get_conn(tdim, 0).indices).reshape(n, -1).astype(int)
    omega = dom.create_region('Omega', 'all')
    field = make_field('f', 'scalar', omega, case['order'], 'lagrange')
    m = pick(case['seed'], n, 0.6)
    sub = fun_region(dom, 'Sub', m)
    ii = Integral('i', order=case['iorder'])
    for reg, cells in ((omega, np.arange(n)), (sub, np.where(m)[0])):
        geo, _ = field.get_mapping(reg, ii, 'cell')
        qp, w = qp_of(ii, g)
        x = coors[conn[cells]]
        bf, bg = gen.ref_shape(g, qp)
        J = np.einsum('cvi,qvj->cqij', x, bg)
        G = np.einsum('cqij,cqik->cqjk', J, J)
        close(geo.det[..., 0, 0], np.sqrt(np.linalg.det(G)) * w, 1e-9, 0, 'area elements')
        close(geo.volume[:, 0, 0, 0], (np.sqrt(np.linalg.det(G)) * w).sum(1), 1e-9, 0, 'areas')
        # Tangential gradients: Gram matrix of basis gradients.
        ebg = bases(field, qp, True)[0]
        ref = np.einsum('qin,cqij,qjm->cqnm', ebg, np.linalg.inv(G), ebg)
        got = np.einsum('cqin,cqim->cqnm', geo.bfg, geo.bfg)
        close(got, ref, 1e-8, 1e-9 * max(np.abs(ref).max(), 1), 'tangential gradients')
        pq = get_physical_qps(reg, ii)
        close(pq.values.reshape(pq.shape), np.einsum('qv,cvi->cqi', bf, x), 1e-10, 1e-12,
              'physical points')
    return {'nontrivial': n > 1, 'classes': [g, 'order%d' % case['order']]}


def strat_embedded(tier):
    def fix(c):
        c['mesh']['sdim'] = int(c['mesh']['kind'][0]) + 1
        if c['mesh']['kind'] == '2_4':
            c['mesh']['bend'] = 0
        return c
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4'], max_cells=3), order=st.integers(1, 2),
        iorder=st.integers(1, 4), seed=st.integers(0, 10 ** 6))).map(fix)


SUBS = [Sub('cells', strat_cells, run_cells, n=300, thorough=6000),
        Sub('facets', strat_facets, run_facets, n=300, thorough=6000),
        Sub('moved', strat_moved, run_moved, n=150, thorough=3000),
        Sub('embedded', strat_embedded, run_embedded, n=100, thorough=2000)]
