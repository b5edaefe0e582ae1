"""F02: evaluation of fields at arbitrary points, probes, transfers and output."""
import os
import tempfile

import numpy as np
import hypothesis.strategies as st

import gen
from fe import fun_region, pick
from harness import Sub, check, close
from f01 import Poly, ref_points, make_field, FAMS

from sfepy.base.base import Struct
from sfepy.discrete import FieldVariable
from sfepy.discrete.fem import Field
from sfepy.discrete import probes as pr

PROP = 'F02'
RULE = ('Cases: random meshes of lines, triangles, quadrilaterals, tetrahedra and hexahedra, '
        'fields of order 1-4, real and complex, whole domain and subdomain; points inside, on '
        'facets, vertices, outside, in holes.  Oracle: own point containment, polynomials in '
        'the finite element space, own probe geometry.  Non-trivial: more than one cell.')
ASSUMPTIONS = ['evaluation at points: Lagrange basis (with bubble) only; the library documents '
               'it as not implemented for serendipity, SEM and hierarchic bases',
               "the 'convex' strategy is used on meshes of convex domains only"]

KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8']


def invert(g, x, p):
    """Reference coordinates of points p (np, dim) in all cells x (nc, nv, dim)."""
    nc, n = len(x), len(p)
    dim = x.shape[2]
    xi = np.full((nc, n, dim), 1.0 / 3 if g in ('2_3', '3_4') else 0.5)
    for _ in range(1 if g in ('1_2', '2_3', '3_4') else 40):
        bf, bg = gen.ref_shape(g, xi.reshape(-1, dim))
        bf = bf.reshape(nc, n, -1)
        bg = bg.reshape(nc, n, bf.shape[2], dim)
        r = p[None] - np.einsum('cpv,cvd->cpd', bf, x)
        jac = np.einsum('cvi,cpvj->cpij', x, bg)
        d = np.linalg.solve(jac + 1e-14 * np.eye(dim), r[..., None])[..., 0]
        d = np.clip(d, -1, 1)
        xi = xi + d
        if np.abs(d).max() < 1e-14:
            break
    bf, _ = gen.ref_shape(g, xi.reshape(-1, dim))
    r = p[None] - np.einsum('cpv,cvd->cpd', bf.reshape(nc, n, -1), x)
    bad = np.abs(r).max(-1) > 1e-8
    out = outside(g, xi)
    out[bad] = np.inf
    return xi, out


def outside(g, xi):
    """How far (max. violation) reference points are outside of the cell."""
    if g in ('2_3', '3_4'):
        return np.maximum((-xi).max(-1), xi.sum(-1) - 1)
    return np.maximum(-xi, xi - 1).max(-1)


def points(g, coors, conn, rs, n):
    """Points of all sorts: (points, type)."""
    x = coors[conn]
    out, typ = [], []
    L = np.ptp(coors, axis=0).max()
    for i in range(n):
        c = x[rs.randint(len(x))]
        t = rs.choice(['in', 'in', 'facet', 'vertex', 'near', 'box', 'far'])
        if t == 'in':
            xi = ref_points(g, rs, 1)
        elif t == 'facet':
            f = gen.facets(g)[rs.randint(len(gen.facets(g)))]
            w = rs.dirichlet(np.ones(len(f)))
            if len(f) == 4:
                w = gen.ref_shape('2_4', rs.rand(1, 2))[0][0]
            xi = (w @ gen.REF[g][list(f)])[None]
        elif t == 'vertex':
            xi = gen.REF[g][[rs.randint(len(gen.REF[g]))]]
        else:
            xi = None
        if xi is not None:
            p = gen.ref_shape(g, xi)[0][0] @ c
        elif t == 'near':
            p = c.mean(0) + 1.2 * (c[rs.randint(len(c))] - c.mean(0)) + rs.randn(len(c[0])) * .01 * L
        elif t == 'box':
            p = coors.min(0) + rs.rand(coors.shape[1]) * np.ptp(coors, axis=0)
        else:
            p = coors.mean(0) + rs.choice([-1, 1], coors.shape[1]) * L * rs.uniform(3, 6)
        out.append(p)
        typ.append(t)
    return np.array(out), np.array(typ)


def fe_setup(case):
    dom, r = gen.domain(case['mesh'])
    g = r['descs'][0]
    omega = dom.create_region('Omega', 'all')
    n = len(r['conns'][0])
    conn = np.asarray(dom.cmesh.get_conn(int(g[0]), 0).indices).reshape(n, -1).astype(int)
    reg, cells = omega, np.arange(n)
    if case.get('sub'):
        m = pick(case['seed'] + 1, n, 0.6)
        reg = fun_region(dom, 'Sub', m)
        cells = np.where(m)[0]
    return dom, g, conn, reg, cells


def poly_order(g, case):
    return case['order']


def make_var(case, dom, g, reg, rs, name='u'):
    dim = int(g[0])
    nc = case['nc']
    dt = np.complex128 if case.get('cplx') else np.float64
    ao = case['order']
    if case.get('bubble') and g in ('2_3', '3_4'):
        field = Field.from_args(name + 'f', dt, nc, reg, approx_order='1B')
        ao = 1
    else:
        field = Field.from_args(name + 'f', dt, nc, reg, approx_order=ao)
    po = Poly(rs, dim, ao, nc)
    if case.get('cplx'):
        po.a = po.a + 1j * rs.uniform(-1, 1, po.a.shape)
    var = FieldVariable(name, 'parameter', field, primary_var_name='(set-to-None)')
    var.set_data(po(field.get_coor()).ravel())
    return var, po


def run_points(case):
    rs = np.random.RandomState(case['seed'])
    dom, g, conn, reg, cells = fe_setup(case)
    dim = int(g[0])
    coors = dom.mesh.coors
    var, po = make_var(case, dom, g, reg, rs)
    pts, typ = points(g, coors, conn[cells], rs, case['n'])
    x = coors[conn[cells]]
    xi, out = invert(g, x, pts)
    dist = out.min(0)
    inside = dist < 1e-12
    outs = dist > 1e-6
    vals0 = None
    for strat in case['strats']:
        kw = dict(strategy=strat, close_limit=case['limit'])
        if case['cache']:
            kw['cache'] = var.field.get_evaluate_cache(share_geometry=True)
        val, rc, cc, status = var.evaluate_at(pts, ret_ref_coors=True, ret_cells=True,
                                              ret_status=True, **kw)
        check(val.shape == (len(pts), case['nc'], 1), 'value shape %s', val.shape)
        check(np.isin(status, range(6)).all(), 'status %s', status)
        for i in range(len(pts)):
            s = int(status[i])
            where = '%s point %s, %s: status %d, distance %g' % (typ[i], pts[i], strat, s, dist[i])
            if inside[i]:
                # Facet points may leave the cell bounding boxes by rounding.
                check((typ[i] == 'facet' and case['limit'] == 0) or s == 0 or (s == 1 and case['limit'] > 0 and dist[i] > -1e-9),
                      'point in the mesh not located: %s', where)
            elif outs[i]:
                check(s > 0, 'point outside of the mesh not flagged: %s', where)
                if case['limit'] == 0:
                    check(s > 1, 'extrapolation with zero limit: %s', where)
                if typ[i] == 'far':
                    check(s > 1, 'extrapolation too far: %s', where)
            if s <= 1:
                check(0 <= cc[i] < len(conn), 'invalid cell')
                own = conn[cells[cc[i]]] if len(cells) == len(conn) else conn[cells][cc[i]]
                px = gen.ref_shape(g, rc[i:i + 1])[0][0] @ coors[own]
                if outs[i]:
                    # Extrapolation: reference coordinates only close to the cell.
                    lim = case['limit'] * 2 * dim + 1e-8
                    check(outside(g, rc[i]) <= lim, 'reference coordinates %s too far: %s',
                          rc[i], where)
                else:
                    tol = 1e-7
                    check(outside(g, rc[i]) <= tol, 'reference coordinates %s outside: %s',
                          rc[i], where)
                    close(px, pts[i], 1e-8, 1e-8, 'reference coordinates of ' + where)
                    close(val[i, :, 0], po(pts[i:i + 1])[0], 1e-7, 1e-8, 'value at ' + where)
        # Default return value.
        v2 = var.evaluate_at(pts, **kw)
        bad = status > 1
        check(np.isnan(v2[bad]).all(), 'values of not located points are not nan')
        close(v2[~bad], val[~bad], 0, 0, 'repeated evaluation')
        ok = inside & (status <= 1)
        if ok.any():
            gr = var.evaluate_at(pts[ok], mode='grad', **kw)
            ref = np.swapaxes(po.grad(pts[ok]), 1, 2)
            close(gr, ref, 1e-6, 1e-6, 'gradients')
            if case['nc'] == dim and dim > 1:
                dv = var.evaluate_at(pts[ok], mode='div', **kw)
                close(dv[:, 0, 0], np.trace(ref, axis1=1, axis2=2), 1e-6, 1e-6, 'divergence')
                es = var.evaluate_at(pts[ok], mode='cauchy_strain', **kw)
                ii = [(0, 0), (1, 1), (0, 1)] if dim == 2 else \
                    [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
                ref = np.stack([ref[:, a, b] if a == b else ref[:, a, b] + ref[:, b, a]
                                for a, b in ii], 1)
                close(es[:, :, 0], ref, 1e-6, 1e-6, 'strain')
    return {'nontrivial': len(cells) > 1,
            'classes': [g, 'order%d' % case['order'], 'sub%d' % case['sub'],
                        'cache%d' % case['cache']] + list(case['strats']) + sorted(set(typ))}


@st.composite
def s_points(draw, item):
    g = item
    conv = draw(st.sampled_from([0, 0, 1])) if g != '1_2' else 0
    simplex = g in ('1_2', '2_3', '3_4')
    kw = {}
    if conv or not simplex:
        kw = {'jit': 0}
    if not simplex and draw(st.booleans()) and not conv:
        kw = {}
    if conv:
        kw['drop'] = 0
    mesh = draw(gen.cases([g], max_cells=3, **kw))
    affine = simplex or mesh['jit'] == 0
    sub = 0 if conv else draw(st.sampled_from([0, 0, 1]))
    o = draw(st.integers(1, 3 if g != '3_8' else 2))
    return dict(mesh=mesh, order=o, bubble=draw(st.sampled_from([0, 0, 1])),
                nc=draw(st.sampled_from([1, int(g[0]), 3])),
                cplx=draw(st.sampled_from([0, 0, 1])) if affine else 0,
                sub=sub, n=draw(st.integers(1, 30)), cache=draw(st.sampled_from([0, 1])),
                limit=draw(st.sampled_from([0.1, 0.0, 0.5])),
                strats=['general', 'convex'] if conv else ['general'],
                seed=draw(st.integers(0, 10 ** 6)))


def eval_own(g, coors, conn, po, pts, dofs_fun=None):
    return po(pts)


def run_probe(case):
    rs = np.random.RandomState(case['seed'])
    dom, g, conn, reg, cells = fe_setup(case)
    dim = int(g[0])
    coors = dom.mesh.coors
    var, po = make_var(case, dom, g, reg, rs)
    var2, po2 = make_var(dict(case, order=case['order2'], bubble=0), dom, g, reg, rs, 'w')
    lo, hi = coors.min(0), coors.max(0)
    c0 = 0.5 * (lo + hi)
    L = np.ptp(coors, axis=0).max()
    share = bool(case['share'])
    pr.Probe.cache = Struct(name='probe_shared_evaluate_cache')
    x = coors[conn[cells]]

    def inner():
        c = x[rs.randint(len(x))]
        return gen.ref_shape(g, ref_points(g, rs, 1))[0][0] @ c
    npt = case['n']
    what = case['what']
    if what == 'points':
        pp = np.array([inner() for _ in range(max(abs(npt), 2))])
        probe = pr.PointsProbe(pp, share_geometry=share)
    elif what == 'line':
        p0, p1 = inner(), inner() + 0.05 * L * rs.randn(dim)
        if np.linalg.norm(p1 - p0) < 1e-3 * L:
            p1 = p0 + 0.3 * L
        probe = pr.LineProbe(p0, p1, npt, share_geometry=share)
    elif what == 'ray':
        p0, d = inner(), rs.randn(dim)

        def p_fun(t):
            return 0.02 * L * t ** 1.5
        probe = pr.RayProbe(p0, d, p_fun, abs(npt), bool(case['both']), share_geometry=share)
    else:
        cen = inner()
        rad = rs.uniform(0.05, 0.4) * L
        nrm = rs.randn(3)
        if dim == 3:
            nrm = {0: nrm, 1: np.array([0, 0, 1.]), 2: np.array([0, 0, -1.]),
                   3: np.array([.04, .03, 1.]), 4: np.array([.04, .03, -1.])}[case['axis']]
            probe = pr.CircleProbe(cen, nrm, rad, npt, share_geometry=share)
            nrm = nrm / np.linalg.norm(nrm)
        else:
            probe = pr.CircleProbe(cen, [0, 0, 1.0], rad, npt, share_geometry=share)
    hint = case.get('hint') and case['hint'] * L
    probe.set_options(close_limit=0.0, size_hint=hint or None)
    diam = np.linalg.norm(x[:, :, None] - x[:, None], axis=-1).max(axis=(1, 2))
    results = {}
    for i, (v, p) in enumerate(((var, po), (var, po), (var2, po2))):
        if i == 1:
            # Changed data of the same variable.
            p = Poly(rs, dim, case['order'] if not case.get('bubble') else 1, case['nc'])
            v.set_data(p(v.field.get_coor()).ravel())
        pars, pts, vals = probe(v, ret_points=True)
        check(len(pars) == len(pts) == len(vals) == probe.n_point, 'numbers of points')
        if what == 'points':
            close(pts, pp, 0, 0, 'probe points')
        elif what == 'line':
            dd = (p1 - p0) / np.linalg.norm(p1 - p0)
            close(pts, p0 + pars[:, None] * dd, 1e-12, 1e-12, 'line points')
            close(pts[[0, -1]], np.array([p0, p1]), 1e-12, 1e-12, 'line ends')
            check((np.diff(pars) > 0).all(), 'line parametrization')
            if npt > 0:
                check(len(pars) == max(npt, 2), 'number of line points')
                close(np.diff(pars), (pars[-1] - pars[0]) / (len(pars) - 1), 1e-9, 1e-12,
                      'line points spacing')
        elif what == 'ray':
            dd = d / np.linalg.norm(d)
            t = p_fun(np.arange(abs(npt), dtype=float))
            if case['both']:
                t = np.r_[-t[::-1], t]
            close(pars, t, 1e-13, 0, 'ray parametrization')
            close(pts, p0 + t[:, None] * dd, 1e-12, 1e-12, 'ray points')
        else:
            q = pts - cen
            close(np.linalg.norm(q, axis=1), rad, 1e-10, 0, 'circle radius')
            check((np.diff(pars) > 0).all() and pars[0] == 0 and pars[-1] < 2 * np.pi,
                  'circle parametrization')
            if npt > 0:
                check(len(pars) == max(npt, 2), 'number of circle points')
                close(pars, 2 * np.pi * np.arange(len(pars)) / len(pars), 1e-12, 1e-12,
                      'circle points spacing')
            if dim == 3:
                close(q @ nrm, 0, 0, 1e-8 * L, 'circle plane')
            # Angles between subsequent points.
            if len(pars) > 1:
                dp = np.diff(pars)
                close((q[1:] * q[:-1]).sum(1) / rad ** 2, np.cos(dp), 0, 1e-8, 'circle angles')
        xi, out = invert(g, x, pts)
        ins = out.min(0) < -1e-9
        outs = out.min(0) > 1e-6
        close(vals[ins, :, 0], p(pts[ins]), 1e-7, 1e-8, 'probed values')
        if npt <= 0 and what in ('line', 'circle'):
            # Adaptive: intervals are at most the diameters of (some) cells.
            ends = pts if what == 'line' else np.r_[pts, pts[:1]]
            gap = np.linalg.norm(np.diff(ends, axis=0), axis=1)
            size = hint or diam.max()
            check(gap.max() <= size * (1.0001 if hint else 2.5) and len(pars) >= max(-npt, 2),
                  'adaptive probe gap %g, cells or hint %g', gap.max(), size)
        fo = probe(v, mode='grad')[1]
        close(fo[ins], np.swapaxes(p.grad(pts[ins]), 1, 2), 1e-6, 1e-6, 'probed gradients')
        results['r%d' % i] = (pars, np.where(np.isfinite(vals), vals, 0.0))
    # Text results.
    keep = {k: v for k, v in results.items() if len(v[0]) == probe.n_point}
    fd, path = tempfile.mkstemp(suffix='.txt')
    os.close(fd)
    try:
        pr.write_results(path, probe, keep)
        for only in (None, ['r0']):
            header, back = pr.read_results(path, only_names=only)
            check(header.probe_class == type(probe).__name__ and header.n_point == probe.n_point,
                  'header of results')
            names = [k for k in keep if only is None or k in only]
            check(sorted(back) == sorted(names), 'names of results %s', sorted(back))
            for k in names:
                pars, vals = keep[k]
                close(back[k], np.c_[pars, vals.reshape(len(pars), -1)], 1e-15, 0, 'read results')
    finally:
        os.remove(path)
    if what == 'line':
        close(header.details[0], p0, 1e-6, 1e-6, 'probe header')
        close(header.details[1], p1, 1e-6, 1e-6, 'probe header')
    return {'nontrivial': len(cells) > 1,
            'classes': [g, what, 'adapt%d' % (npt <= 0), 'share%d' % share]}


@st.composite
def s_probe(draw, item):
    g, what = item.split(':')
    simplex = g in ('2_3', '3_4')
    kw = {} if simplex else {'jit': 0}
    mesh = draw(gen.cases([g], max_cells=3, **kw))
    return dict(mesh=mesh, order=draw(st.integers(1, 3 if g != '3_8' else 2)),
                order2=draw(st.integers(1, 2)),
                bubble=draw(st.sampled_from([0, 0, 1])), nc=draw(st.sampled_from([1, 2, 3])),
                what=what, n=draw(st.sampled_from([-2, -10, 2, 3, 7, 20])),
                both=draw(st.sampled_from([0, 1])), share=draw(st.sampled_from([0, 1])),
                axis=draw(st.sampled_from([0, 0, 1, 2, 3, 4])), hint=draw(st.sampled_from([0, 0, 0.07, 0.3])), sub=draw(st.sampled_from([0, 0, 1])),
                seed=draw(st.integers(0, 10 ** 6)))


def run_transfer(case):
    """Interpolation between meshes, output in vertices and linearized output."""
    rs = np.random.RandomState(case['seed'])
    dom, g, conn, reg, cells = fe_setup(case)
    dim = int(g[0])
    coors = dom.mesh.coors
    var, po = make_var(case, dom, g, reg, rs)
    x = coors[conn[cells]]
    if case['what'] == 'other':
        # A mesh inside of the first one (in one or more cells).
        m2 = dict(case['mesh2'])
        if case['same']:
            m2 = dict(case['mesh'])
        r2 = gen.raw(m2)
        lo, hi = coors.min(0), coors.max(0)
        from sfepy.discrete.fem import Mesh, FEDomain
        c2 = r2['coors']
        if not case['same']:
            c2 = (c2 - c2.min(0)) / np.maximum(np.ptp(c2, axis=0), 1e-12)
            c2 = lo + (hi - lo) * (rs.uniform(0, 0.3) + 0.7 * c2)
        dom2 = FEDomain('d2', Mesh.from_data('m2', c2, r2['ngroups'], r2['conns'],
                                             r2['mat_ids'], r2['descs']))
        om2 = dom2.create_region('Omega', 'all')
        f2 = Field.from_args('f2', var.field.dtype, case['nc'], om2, approx_order=case['order2'])
        v2 = FieldVariable('v', 'parameter', f2, primary_var_name='(set-to-None)')
        v2.set_from_other(var, strategy='interpolation', close_limit=0.0)
        nn = f2.get_coor()
        got = v2().reshape(-1, case['nc'])
        xi, out = invert(g, x, np.ascontiguousarray(nn))
        ins, outs = out.min(0) < -1e-9, out.min(0) > 1e-6
        close(got[ins], po(nn[ins]), 1e-7, 1e-8, 'interpolated values')
        check(np.isnan(got[outs]).all(), 'values outside of the mesh')
        return {'nontrivial': bool(ins.any()), 'classes': ['other', g]}
    vec = var()
    if case['what'] == 'strip':
        fill = {0: None, 1: 0.0, 2: 7.5}[case['fill']]
        out = var.create_output(vec, key='res', extend=True, fill_value=fill)
        val = po(coors)
        vs = np.unique(conn[cells])
        ref = np.empty((len(coors), case['nc']), dtype=val.dtype)
        dofs = vec.reshape(-1, case['nc'])
        if fill is None:
            if case['cplx']:
                ref[:] = dofs.real.min(0) + 1j * dofs.imag.min(0)
            else:
                ref[:] = dofs.min(0)
        else:
            ref[:] = fill
        ref[vs] = val[vs]
        if case['cplx']:
            got = out['real.res'].data + 1j * out['imag.res'].data
        else:
            got = out['res'].data
        close(got[vs], ref[vs], 1e-12, 1e-13, 'vertex output')
        if fill is not None:
            close(got, ref, 1e-12, 1e-13, 'extended output')
        out = var.create_output(vec, key='res', extend=False)
        got = out['res'].data if not case['cplx'] else \
            out['real.res'].data + 1j * out['imag.res'].data
        close(got, val[vs], 1e-12, 1e-13, 'vertex output without extension')
        return {'nontrivial': len(cells) > 1, 'classes': ['strip', g]}
    # Linearized.
    fam = case['fam']
    field = make_field('lf', case['nc'], reg, case['order'], fam)
    fv = FieldVariable('l', 'parameter', field, primary_var_name='(set-to-None)')
    if fam in ('lobatto', 'bernstein'):
        vec = rs.uniform(-1, 1, (field.n_nod, case['nc']))
    else:
        po = Poly(rs, dim, case['order'], case['nc'])
        vec = po(field.get_coor())
    fv.set_data(vec.ravel())
    mn, mx = case['levels']
    lin = Struct(kind='adaptive', min_level=mn, max_level=mx, eps=case['eps'])
    out = fv.create_output(vec.ravel(), key='res', linearization=lin)['res']
    mesh, vdofs = out.mesh, out.data
    lc = mesh.get_conn(g)
    check(vdofs.shape == (len(mesh.coors), case['nc']), 'linearized data shape')
    # Cells of the output tile the cells of the region.
    pts, w, _ = gen.physical_quad(mesh.coors, lc, g, 2)
    _, w0, _ = gen.physical_quad(coors, conn[cells], g, 2)
    close(w.sum(), w0.sum(), 1e-10, 0, 'linearized mesh volume')
    nch = {'1_2': 2, '2_3': 4, '2_4': 4, '3_4': 8, '3_8': 8}[g]
    check(len(cells) * nch ** mn <= len(lc) <= len(cells) * nch ** mx, 'number of cells %d',
          len(lc))
    xi, dist = invert(g, coors[conn[cells]], mesh.coors)
    check(dist.min(0).max() < 1e-9, 'linearized vertices outside of the region')
    from f01 import bases
    if fam in ('lobatto', 'bernstein'):
        econn = np.asarray(field.econn)
        own = dist.argmin(0)
        pp = np.clip(xi[own, np.arange(len(own))], 0, 1)
        b = bases(field, pp)
        b = np.stack([b[c if len(b) > 1 else 0, i, 0] for i, c in enumerate(own)])
        ref = np.einsum('pn,pnk->pk', b, vec[econn[own]])
    else:
        ref = po(mesh.coors)
    close(vdofs, ref, 1e-8, 1e-9, 'linearized values')
    return {'nontrivial': len(cells) > 1, 'classes': ['linear', g, fam]}


@st.composite
def s_transfer(draw, item):
    g = draw(st.sampled_from(KINDS if item != 'linear' else KINDS[1:]))
    simplex = g in ('1_2', '2_3', '3_4')
    kw = {} if simplex else {'jit': 0}
    mesh = draw(gen.cases([g], max_cells=2, **kw))
    mesh2 = draw(gen.cases([g] if g in ('1_2',) else
                           (['2_3', '2_4'] if g[0] == '2' else ['3_4', '3_8']), max_cells=2))
    fams = [f for f in FAMS[g] if f in ('lagrange', 'lobatto', 'bernstein', 'serendipity', 'sem')]
    fam = draw(st.sampled_from(fams))
    o = draw(st.integers(1, 3 if g != '3_8' else 2))
    mn = draw(st.integers(0, 1))
    return dict(mesh=mesh, mesh2=mesh2, order=o, order2=draw(st.integers(1, 2)), fam=fam,
                nc=draw(st.sampled_from([1, 2, 3])), what=item,
                cplx=draw(st.sampled_from([0, 0, 1])) if item != 'linear' else 0,
                fill=draw(st.integers(0, 2)), same=draw(st.sampled_from([0, 0, 1])),
                levels=[mn, draw(st.integers(max(mn, 1), 2))],
                eps=draw(st.sampled_from([1e-1, 1e-2, 1e-4])),
                sub=draw(st.sampled_from([0, 0, 1])), seed=draw(st.integers(0, 10 ** 6)))


SUBS = [
    Sub('points', s_points, run_points, n=40, items=KINDS),
    Sub('probe', s_probe, run_probe, n=12,
        items=['%s:%s' % (g, w) for g in KINDS[1:] for w in ('points', 'line', 'ray', 'circle')]),
    Sub('transfer', s_transfer, run_transfer, n=40, items=['other', 'strip', 'linear']),
]
