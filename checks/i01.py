"""I01: isogeometric analysis, B-splines, spline boxes."""
import itertools
import os

import numpy as np
import hypothesis.strategies as st

from harness import Sub, Skip, Violation, check, close
import m04

from sfepy.base.base import Struct
import sfepy.discrete.iga as iga
import sfepy.discrete.iga.iga as piga
import sfepy.discrete.iga.extmods.igac as igac
from sfepy.discrete.iga import io
from sfepy.discrete.iga.domain import NurbsPatch, IGDomain
from sfepy.mesh.bspline import BSpline, BSplineSurf
from sfepy.mesh.splinebox import SplineBox, SplineRegion2D

PROP = 'I01'
RULE = ('Cases: NURBS patches (degrees 1 to 5, 1-3 dimensions, non-uniform knots with multiplicities, '
        'weights, perturbed control points), domains and fields on them, B-spline curves and '
        'surfaces, spline boxes and regions. Non-trivial: rational, multiple knots, perturbed, or with '
        'more control points than the degree requires; all domains, surfaces and boxes.')
ASSUMPTIONS = ['open knot vectors of patches, positive Jacobians', 'degree elevation needs igakit (absent)',
               'patch control points dimension = parametric dimension',
               'sampled output of fields only on parametric domains [0, 1]']


# --- reference --------------------------------------------------------------------------------

def span(knots, t, right=False):
    """The non-empty knot span of t (the last one for the end)."""
    u = np.unique(knots)
    k = int(np.clip(np.searchsorted(u, t, 'right') - 1, 0, len(u) - 2))
    return u[k], u[k + 1]


def cox(knots, p, t, sp):
    """Values and derivatives of all B-splines of degree p in t as polynomials of the span sp."""
    n = len(knots) - 1
    mid = 0.5 * (sp[0] + sp[1])
    N = np.array([1.0 if knots[i] <= mid < knots[i + 1] else 0.0 for i in range(n)])
    dN = np.zeros(n)
    for q in range(1, p + 1):
        M, dM = np.zeros(n - q), np.zeros(n - q)
        for i in range(n - q):
            a, b = knots[i + q] - knots[i], knots[i + q + 1] - knots[i + 1]
            if a > 0:
                M[i] += (t - knots[i]) / a * N[i]
                dM[i] += N[i] / a + (t - knots[i]) / a * dN[i]
            if b > 0:
                M[i] += (knots[i + q + 1] - t) / b * N[i + 1]
                dM[i] += -N[i + 1] / b + (knots[i + q + 1] - t) / b * dN[i + 1]
        N, dN = M, dM
    return N, dN


class Patch:
    """Tensor product rational splines by the definition."""

    def __init__(self, knots, degrees, cps, weights):
        self.knots, self.degrees, self.cps, self.weights = knots, degrees, cps, weights
        self.dim = len(knots)
        self.uks = [np.unique(k) for k in knots]
        self.n_els = [len(u) - 1 for u in self.uks]
        self.ns = [len(k) - p - 1 for k, p in zip(knots, degrees)]

    def tensor(self, parts):
        out = parts[0]
        for p in parts[1:]:
            out = np.multiply.outer(out, p)
        return out.ravel()

    def basis(self, el, xi):
        """R (n), dR/dxi (dim, n) in the reference point xi in [0, 1]^dim of the element."""
        Ns, dNs, hs = [], [], []
        for ia in range(self.dim):
            a, b = self.uks[ia][el[ia]], self.uks[ia][el[ia] + 1]
            N, dN = cox(self.knots[ia], self.degrees[ia], a + xi[ia] * (b - a), (a, b))
            Ns.append(N)
            dNs.append(dN * (b - a))
        B = self.tensor(Ns) * self.weights
        dB = np.array([self.tensor([dNs[k] if k == ia else Ns[k] for k in range(self.dim)])
                       for ia in range(self.dim)]) * self.weights
        W, dW = B.sum(), dB.sum(1)
        R = B / W
        dR = (dB - R * dW[:, None]) / W
        return R, dR

    def eval(self, el, xi):
        """R, physical gradients, det, x, J."""
        R, dR = self.basis(el, xi)
        J = dR @ self.cps  # J[a, i] = dx_i/dxi_a.
        det = np.linalg.det(J)
        return R, np.linalg.solve(J, dR), det, R @ self.cps, J


def make_patch(case):
    rs = np.random.RandomState(case['seed'])
    dim = case['dim']
    knots, degrees = [], []
    for ia in range(dim):
        p = case['degrees'][ia]
        lo = case['lo']
        br = np.cumsum(np.r_[lo, rs.uniform(0.2, 1.0, case['n_els'][ia])])
        if case['uniform']:
            br = np.linspace(0, 1, case['n_els'][ia] + 1)
        mult = [1 + rs.randint(0, p) if case['mult'] else 1 for _ in br[1:-1]]
        mult = [min(p, m) for m in mult]
        knots.append(np.r_[[br[0]] * (p + 1), np.repeat(br[1:-1], mult), [br[-1]] * (p + 1)])
        degrees.append(p)
    ns = [len(k) - p - 1 for k, p in zip(knots, degrees)]
    # Greville points, perturbed and mapped.
    gs = [np.array([k[i + 1:i + p + 1].mean() for i in range(n)])
          for k, p, n in zip(knots, degrees, ns)]
    x = np.array(list(itertools.product(*gs)))
    gap = min(np.diff(np.unique(k)).min() / p for k, p in zip(knots, degrees))
    x = x + rs.uniform(-1, 1, x.shape) * case['jit'] * 0.1 * gap
    A = np.eye(dim) + rs.uniform(-0.25, 0.25, (dim, dim)) * case['aff']
    x = np.ascontiguousarray(x @ A.T * (1 + case['aff']) + case['aff'] * rs.uniform(-1, 1, dim))
    w = rs.uniform(0.9, 1.1, len(x)) if case['rational'] else np.ones(len(x))
    return tuple(knots), degrees, x, w


patch_fields = dict(
    n_els=st.lists(st.integers(1, 3), min_size=3, max_size=3),
    uniform=st.integers(0, 1), mult=st.integers(0, 1), jit=st.integers(0, 1),
    aff=st.integers(0, 1), rational=st.integers(0, 1), lo=st.sampled_from([0.0, -1.5, 3.0]),
    seed=st.integers(0, 10 ** 6))


def patch_strategy(item=None):
    @st.composite
    def mk(draw):
        dim = draw(st.sampled_from([1, 2, 2, 3]))
        return dict({k: draw(v) for k, v in patch_fields.items()}, dim=dim,
                    degrees=[draw(st.integers(1, {1: 5, 2: 4, 3: 3}[dim])) for _ in range(3)])
    return mk()


def domain_data(case):
    knots, degrees, cps, w = make_patch(case)
    cs = iga.compute_bezier_extraction(knots, degrees)
    n_els = [len(c) for c in cs]
    conn, bconn = iga.create_connectivity(n_els, knots, degrees)
    ccs = iga.combine_bezier_extraction(cs)
    bcps, bw = iga.compute_bezier_control(cps, w, ccs, conn, bconn)
    nurbs = NurbsPatch(knots, degrees, cps, w, cs, conn)
    bmesh = Struct(name='bmesh', cps=bcps, weights=bw, conn=bconn)
    regions = iga.get_patch_box_regions(n_els, degrees)
    return nurbs, bmesh, regions, Patch(knots, degrees, cps, w)


def bernstein(p, x):
    from math import comb
    f = np.array([comb(p, k) * x ** k * (1 - x) ** (p - k) for k in range(p + 1)])
    if p == 0:
        return f, np.zeros(1)
    g = np.array([comb(p - 1, k) * x ** k * (1 - x) ** (p - 1 - k) for k in range(p)])
    d = p * (np.r_[0, g] - np.r_[g, 0])
    return f, d


def run_nurbs(case):
    rs = np.random.RandomState(case['seed'] + 1)
    nurbs, bmesh, regions, ref = domain_data(case)
    dim = ref.dim
    els = list(itertools.product(*[range(n) for n in ref.n_els]))
    check(list(nurbs.n_els) == ref.n_els, 'numbers of elements %s', nurbs.n_els, key='n-els')
    nf = np.prod([p + 1 for p in ref.degrees])
    check(nurbs.conn.shape == (len(els), nf), 'connectivity %s', nurbs.conn.shape, key='conn')
    qps = np.ascontiguousarray(rs.uniform(0, 1, (4, dim)))
    qps[0] = rs.randint(0, 2, dim)
    data = [[ref.eval(el, q) for q in qps] for el in els]
    dets = np.array([[d[2] for d in r] for r in data])
    if dets.min() < 1e-3 * np.abs(dets).max():
        raise Skip('distorted patch')
    degs = nurbs.degrees
    args = (qps, nurbs.cps, nurbs.weights, degs, nurbs.cs, nurbs.conn)
    cells = None
    sel = list(range(len(els)))
    if case['seed'] & 1:
        sel = sorted(rs.choice(len(els), rs.randint(1, len(els) + 1), replace=False))
        cells = np.array(sel, dtype=np.uint32)
    pargs = args[:4] + ([c[:, 0] for c in nurbs.cs], nurbs.conn) if nurbs.cs[0].ndim == 4 else args
    fs = [('C', igac, args)]
    if len(sel) * nf < 400:
        fs.append(('python', piga, pargs))
    u = np.ascontiguousarray(rs.uniform(-1, 1, (len(nurbs.cps), 1 + case['seed'] % 3)))
    for name, mod, a in fs:
        bfs, bfgs, det = mod.eval_mapping_data_in_qp(*a, cells=cells)
        X, vals, det2 = mod.eval_variable_in_qp(u, *a, cells=cells)
        for ii, ie in enumerate(sel):
            cn = nurbs.conn[ie]
            for iq in range(len(qps)):
                R, G, d, x, J = data[ie][iq]
                full = np.zeros(len(R))
                full[cn] = bfs[ii, iq, 0]
                tag = name + ' '
                close(full, R, 1e-10, 1e-11, tag + 'basis', key='basis')
                check(len(set(cn)) == nf, 'functions of an element', key='conn')
                full = np.zeros((dim, len(R)))
                full[:, cn] = bfgs[ii, iq]
                sc = 1e-9 * np.abs(G).max()
                close(full, G, 1e-8, sc, tag + 'gradients', key='gradients')
                close(det[ii, iq, 0, 0], d, 1e-9, 0, tag + 'jacobian', key='jacobian')
                k = ii * len(qps) + iq
                close(X[k], x, 1e-10, 1e-10 * np.abs(ref.cps).max(), tag + 'coordinates', key='coors')
                close(vals[k], R @ u, 1e-10, 1e-11, tag + 'variable values', key='variable')
                close(np.ravel(det2)[k], d, 1e-9, 0, tag + 'jacobian of variable', key='jacobian')
    # Bernstein basis.
    for p in range(1, 6):
        x = rs.uniform(0, 1)
        f, d = bernstein(p, x)
        pf, pd = piga.eval_bernstein_basis(x, p)
        close(pf, f, 1e-12, 1e-13, 'bernstein', key='bernstein')
        close(pd, d, 1e-11, 1e-12, 'bernstein derivatives', key='bernstein')
        cf, cd = np.zeros(p + 1), np.zeros(p + 1)
        igac.eval_bernstein_basis(cf, cd, x, p)
        close(cf, f, 1e-12, 1e-13, 'C bernstein', key='bernstein')
        close(cd, d, 1e-11, 1e-12, 'C bernstein derivatives', key='bernstein')
    # Bezier mesh.
    shape = [n * p + 1 for n, p in zip(ref.n_els, ref.degrees)]
    check(len(bmesh.cps) == np.prod(shape), 'number of Bezier points %d', len(bmesh.cps), key='bezier')
    for ie, el in enumerate(els):
        idx = np.array([np.ravel_multi_index([e * p + k for e, p, k in zip(el, ref.degrees, ks)],
                                             shape)
                        for ks in itertools.product(*[range(p + 1) for p in ref.degrees])])
        check(np.array_equal(idx, bmesh.conn[ie]), 'Bezier connectivity of %s', el, key='bezier')
        for iq, q in enumerate(qps):
            B = ref.tensor([bernstein(p, t)[0] for p, t in zip(ref.degrees, q)])
            B = B * bmesh.weights[bmesh.conn[ie]]
            x = (B / B.sum()) @ bmesh.cps[bmesh.conn[ie]]
            close(x, data[ie][iq][3], 1e-9, 1e-9 * np.abs(ref.cps).max(), 'Bezier geometry',
                  key='bezier-geometry')
    # Regions of the parametric box.
    for ia in range(dim):
        for side in (0, 1):
            ids = [range(0, s, p) for s, p in zip(shape, ref.degrees)]
            ids[ia] = [0 if side == 0 else shape[ia] - 1]
            want = sorted(np.ravel_multi_index(k, shape) for k in itertools.product(*ids))
            check(sorted(regions['xi%d%d' % (ia, side)]) == want, 'box region xi%d%d', ia, side,
                  key='box-regions')
    # Evaluation in tensor product parameters.
    pars = []
    for k in ref.knots:
        t = rs.uniform(k[0], k[-1], rs.randint(1, 4))
        t = np.r_[t, rs.choice(np.unique(k))]
        pars.append(t)
    gx = nurbs(*pars)
    gv = nurbs.evaluate(u, *pars)
    for i, t in enumerate(itertools.product(*pars)):
        el, xi = [], []
        for ia, v in enumerate(t):
            uk = ref.uks[ia]
            e = int(np.clip(np.searchsorted(uk, v, 'right') - 1, 0, len(uk) - 2))
            el.append(e)
            xi.append((v - uk[e]) / (uk[e + 1] - uk[e]))
        R, _ = ref.basis(el, xi)
        close(gx.reshape(-1, dim)[i], R @ ref.cps, 1e-9, 1e-10 * np.abs(ref.cps).max(),
              'patch coordinates', key='patch-call')
        close(gv.reshape(-1, u.shape[1])[i], R @ u, 1e-9, 1e-10, 'patch evaluation', key='patch-eval')
    return {'nontrivial': case['rational'] or case['mult'] or case['jit'],
            'classes': ['dim%d' % dim, 'rational' if case['rational'] else 'poly',
                        'mult' if case['mult'] else 'simple',
                        'uneven' if len(set(ref.degrees)) > 1 else 'even']}


# --- domains and fields -----------------------------------------------------------------------

def check_domain(dom, ref, key):
    """The geometry of the topological mesh and vertex sets."""
    dim = ref.dim
    grid = [n + 1 for n in ref.n_els]
    coors = dom.mesh.coors
    check(len(coors) == np.prod(grid), 'vertices of the topology mesh %d', len(coors), key=key)
    want = []
    for v in itertools.product(*[range(g) for g in grid]):
        el = [min(a, n - 1) for a, n in zip(v, ref.n_els)]
        R, _ = ref.basis(el, [float(a - e) for a, e in zip(v, el)])
        want.append(R @ ref.cps)
    want = np.array(want)
    close(coors, want, 1e-10, 1e-10 * np.abs(want).max(), 'vertices of the topology mesh', key=key)
    n = np.arange(len(want)).reshape(grid)
    for ia in range(dim):
        for side in (0, 1):
            w = np.sort(np.take(n, -side, axis=ia).ravel())
            got = np.sort(dom.vertex_set_bcs['xi%d%d' % (ia, side)])
            check(np.array_equal(got, w), 'vertex set xi%d%d: %s, should be %s', ia, side,
                  got, w, key=key + '-sets')


def run_domain(case):
    import tables
    from sfepy.discrete import (FieldVariable, Material, Integral, Integrals, Equation, Equations,
                                Function, Problem)
    from sfepy.discrete.common import Field
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.terms import Term
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    rs = np.random.RandomState(case['seed'] + 2)
    nurbs, bmesh, regions, ref = domain_data(case)
    dim = ref.dim
    els = list(itertools.product(*[range(n) for n in ref.n_els]))
    for el in els:
        for q in itertools.product([0.0, 0.5, 1.0], repeat=dim):
            if ref.eval(el, q)[2] < 1e-3 * np.prod(np.ptp(ref.cps, axis=0)) / len(els):
                raise Skip('distorted patch')
    data = (nurbs.knots, nurbs.degrees, nurbs.cps, nurbs.weights, nurbs.cs, nurbs.conn,
            bmesh.cps, bmesh.weights, bmesh.conn, regions)
    dom = IGDomain.from_data(*data)
    check_domain(dom, ref, 'domain')
    with m04.Scratch() as path:
        name = os.path.join(path, 'd.iga')
        if case['io'] == 1:
            io.write_iga_data(name, None, *data)
            dom2 = IGDomain.from_file(name)
        elif case['io'] == 2:
            with tables.open_file(name, 'w') as fd:
                g = fd.create_group(fd.root, 'dom')
                dom.write_domain_to_hdf5(fd, g)
            with tables.open_file(name, 'r') as fd:
                dom2 = IGDomain.read_domain_from_hdf5(fd, fd.root.dom)
        if case['io']:
            for k in ('cps', 'weights', 'conn', 'degrees'):
                a, b = getattr(dom.nurbs, k), getattr(dom2.nurbs, k)
                check(np.array_equal(a, b), 'stored %s', k, key='io')
            check(all(np.array_equal(a, b) for a, b in zip(dom.nurbs.knots, dom2.nurbs.knots)),
                  'stored knots', key='io')
            check(all(np.array_equal(a, b) for a, b in zip(dom.nurbs.cs, dom2.nurbs.cs)),
                  'stored extraction', key='io')
            check_domain(dom2, ref, 'io-domain')
            dom = dom2
    omega = dom.create_region('Omega', 'all')
    nc = dim if case['nc'] > 1 else 1
    shape = 'scalar' if nc == 1 else (nc,)
    field = Field.from_args('fu', np.float64, shape, omega, approx_order=None, space='H1',
                            poly_space_basis='iga')
    grid = np.arange(np.prod(ref.ns)).reshape(ref.ns)
    sides = {}
    for ia in range(dim):
        for side in (0, 1):
            k = 'xi%d%d' % (ia, side)
            r = sides[k] = dom.create_region('G' + k, 'vertices of set ' + k,
                                             'facet' if dim > 1 else 'vertex')
            if dim > 1:
                w = np.sort(np.take(grid, -side, axis=ia).ravel())
                got = np.unique(field.get_dofs_in_region(r))
                check(np.array_equal(got, w), 'DOFs of side %s: %s', k, got, key='side-dofs')
    check(np.array_equal(np.unique(field.get_dofs_in_region(omega)), grid.ravel()), 'DOFs', key='dofs')
    # Integrals against Gauss points per element.
    order = 2 * max(ref.degrees) + 2
    gx, gw = np.polynomial.legendre.leggauss(order)
    gx, gw = 0.5 * (gx + 1), 0.5 * gw
    n_cell = rs.randint(1, len(els) + 1)
    cells = np.sort(rs.choice(len(els), n_cell, replace=False))
    sub = dom.create_region('Sub', 'cell ' + ', '.join(map(str, cells)))
    u = FieldVariable('u', 'unknown', field)
    v = FieldVariable('v', 'test', field, primary_var_name='u')
    p = FieldVariable('p', 'parameter', field, primary_var_name='(set-to-None)')
    c = rs.uniform(-1, 1, (len(ref.cps), nc))
    p.set_data(c.ravel())
    integral = Integral('i', order=2 * order - 1)
    for reg, cl in ((omega, range(len(els))), (sub, cells)):
        M = np.zeros((len(ref.cps),) * 2)
        K = np.zeros_like(M)
        vol, iu, ig = 0.0, 0.0, 0.0
        for ie in cl:
            for q, w in zip(itertools.product(gx, repeat=dim), itertools.product(gw, repeat=dim)):
                R, G, d, x, J = ref.eval(els[ie], q)
                w = np.prod(w) * abs(d)
                M += w * np.outer(R, R)
                K += w * G.T @ G
                vol += w
                iu = iu + w * (R @ c)
                ig = ig + w * (G @ c)
        t = Term.new('ev_volume(p)', integral, reg, p=p)
        t.setup()
        close(t.evaluate(), vol, 1e-9, 0, 'volume', key='volume')
        t = Term.new('ev_integrate(p)', integral, reg, p=p)
        t.setup()
        close(np.ravel(t.evaluate()), np.ravel(iu), 1e-8, 1e-9 * vol, 'integral', key='integral')
        t = Term.new('ev_grad(p)', integral, reg, p=p)
        t.setup()
        close(np.ravel(t.evaluate(mode='eval')), np.ravel(ig), 1e-7, 1e-8, 'gradient', key='ev-grad')
        for tn, X in (('dw_dot(v, u)', M), ('dw_laplace(v, u)' if nc == 1 else None, K)):
            if tn is None:
                continue
            t = Term.new(tn, integral, reg, v=v, u=u)
            eqs = Equations([Equation('e', t)])
            pb = Problem('m', equations=eqs)
            pb.time_update()
            pb.get_variables().init_state()
            mtx = eqs.evaluate(mode='weak', dw_mode='matrix', asm_obj=pb.mtx_a)
            close(mtx.toarray(), np.kron(X, np.eye(nc)), 1e-8, 1e-9 * np.abs(X).max(),
                  'matrix of ' + tn, key='matrix')
    # Physical quadrature points.
    qp = omega.domain
    from sfepy.discrete.common.mappings import PhysicalQPs
    from sfepy.discrete.common.mappings import get_physical_qps
    qps = get_physical_qps(omega, integral)
    rq, rw = integral.get_qp(dom.gel.name)
    X = np.array([ref.eval(el, q)[3] for el in els for q in rq])
    close(qps.values, X, 1e-9, 1e-9 * np.abs(X).max(), 'physical quadrature points', key='qps')
    classes = ['dim%d' % dim, 'io%d' % case['io'], 'nc%d' % nc]
    if dim > 1:
        # Boundary conditions: projection of functions in the space of the field.
        A = rs.uniform(-1, 1, (dim, nc))
        b = rs.uniform(-1, 1, nc)
        lin = lambda ts, coors, bc=None, problem=None, **kw: (coors @ A + b)
        exact = ref.cps @ A + b
        k = sorted(sides)[case['seed'] % len(sides)]
        nods, vals = field.set_dofs(lambda x: lin(None, x), sides[k], dpn=nc)
        vals = np.reshape(vals, (len(nods), -1))
        close(vals, exact[nods], 1e-7, 1e-8, 'projection to side ' + k, key='projection')
        if nc == 1:
            # A Laplace problem with linear solution.
            f = Function('lin', lin)
            ks = sorted(sides)
            bc = Conditions([EssentialBC('e' + kk, sides[kk], {'u.all': f}) for kk in ks])
            t = Term.new('dw_laplace(v, u)', integral, omega, v=v, u=u)
            pb = Problem('p', equations=Equations([Equation('e', t)]))
            pb.set_bcs(ebcs=bc)
            ls = ScipyDirect({})
            pb.set_solver(Newton({'eps_a': 1e-8, 'i_max': 1}, lin_solver=ls))
            st_ = pb.solve(save_results=False, verbose=False)
            sol = st_()
            close(sol, exact.ravel(), 1e-6, 1e-7, 'linear solution', key='solution')
            classes.append('solved')
            # The output is the evaluated solution.
    if case['uniform'] and case['out']:
        out = field.create_output(c, 'u')
        mesh = out['__mesh__']
        num = 25 if dim == 3 else 101
        check(mesh.n_nod == num ** dim, 'nodes of output mesh %d', mesh.n_nod, key='output')
        val = np.asarray(out['u'].data)
        check(out['u'].mode == 'vertex' and val.shape == (mesh.n_nod, nc), 'output %s', val.shape,
              key='output')
        g = np.linspace(0, 1, num)
        for _ in range(30):
            k = [rs.choice([0, num - 1, rs.randint(num)]) for _ in range(dim)]
            el = [int(np.clip(np.searchsorted(uk, g[i], 'right') - 1, 0, len(uk) - 2))
                  for uk, i in zip(ref.uks, k)]
            xi = [(g[i] - uk[e]) / (uk[e + 1] - uk[e]) for uk, e, i in zip(ref.uks, el, k)]
            R, _ = ref.basis(el, xi)
            i = np.ravel_multi_index(k, (num,) * dim)
            close(mesh.coors[i], R @ ref.cps, 1e-8, 1e-9, 'output coordinates', key='output')
            close(val[i], R @ c, 1e-8, 1e-9, 'output values', key='output')
        classes.append('output')
    return {'nontrivial': True, 'classes': classes}


def domain_strategy(item=None):
    @st.composite
    def mk(draw):
        case = draw(patch_strategy())
        if case['dim'] == 1:
            case['dim'] = 2
        mx = 3 if case['dim'] == 2 else 2
        case['degrees'] = [min(mx, d) for d in case['degrees']]
        if case['dim'] == 3:
            case['n_els'] = [min(2, d) for d in case['n_els']]
        return dict(case, io=draw(st.integers(0, 2)), nc=draw(st.integers(1, 3)),
                    out=draw(st.sampled_from([0, 0, 1])))
    return mk()


# --- B-splines --------------------------------------------------------------------------------

def run_bspline(case):
    rs = np.random.RandomState(case['seed'])
    p, n, dim = case['degree'], case['degree'] + 1 + case['extra'], case['dim']
    cyc = bool(case['cyclic'])
    a, b = case['range']
    s = BSpline(p, is_cyclic=cyc)
    cp = rs.uniform(-1, 1, (n, dim))
    s.set_control_points(cp)
    close(s.get_control_points(), cp, 0, 0, 'control points', key='control-points')
    if case['knots'] and not cyc:
        br = np.cumsum(np.r_[a, rs.uniform(0.2, 1, n - p)])
        kv = np.r_[[br[0]] * p, br, [br[-1]] * p]
        s.set_knot_vector(kv)
    else:
        s.make_knot_vector('cyclic' if cyc else 'clamped', knot_range=(a, b))
        if not cyc:
            br = np.linspace(a, b, n - p + 1)
            kv = np.r_[[a] * p, br, [b] * p]
            close(s.get_knot_vector(), kv, 1e-12, 1e-12, 'clamped knots', key='knots')
        else:
            h = (b - a) / n
            kv = a + h * np.arange(-p, n + p + 1)
            close(s.get_knot_vector(), kv, 1e-11, 1e-11, 'cyclic knots', key='cyclic-knots')
    lo, hi = kv[p], kv[-p - 1]
    full = np.vstack([cp, cp[:p]]) if cyc else cp
    t = np.r_[rs.uniform(lo, hi, 5), lo, hi, rs.choice(kv[p:-p])]
    t0 = t.copy()

    def curve(kv, full, t):
        out = []
        for v in t:
            N, _ = cox(kv, p, v, span(kv[p:-p] if p else kv, v))
            out.append(N @ full)
        return np.array(out)
    want = curve(kv, full, t)
    tol = 1e-9
    got = s.eval(t)
    close(got, want, tol, tol, 'curve of %s' % case['range'], key='curve')
    check(np.array_equal(t, t0), 'parameters changed', key='mutation')
    B = s.eval_basis(t, return_val=True)
    close(B.sum(1), np.ones(len(t)), 1e-12, 1e-12, 'partition of unity', key='unity')
    if cyc:
        close(got[5], got[6], tol, tol, 'closed curve', key='closed')
    else:
        close(got[5], cp[0], tol, tol, 'first point', key='ends')
        close(got[6], cp[-1], tol, tol, 'last point', key='ends')
    # Affine invariance.
    M, c = rs.uniform(-1, 1, (dim, dim)), rs.uniform(-1, 1, dim)
    close(s.eval(t, cp_coors=cp @ M + c), want @ M + c, tol, tol, 'affine invariance', key='affine')
    s.set_control_points(cp)
    if not cyc and case['insert']:
        for _ in range(case['insert']):
            new = rs.uniform(lo, hi) if rs.randint(2) else rs.choice(kv[p:-p][:-1])
            m = np.sum(s.knots == new)
            nk = len(s.knots)
            if new == lo:
                continue
            s.insert_knot(new)
            if m < p:
                check(len(s.knots) == nk + 1 and np.sum(s.knots == new) == m + 1, 'inserted knot',
                      key='insert')
            check(len(s.knots) == len(s.cp_coors) + p + 1, 'sizes after insertion', key='insert')
            check((np.diff(s.knots) >= 0).all(), 'sorted knots', key='insert')
            close(s.eval(t), want, tol, tol, 'curve after knot insertion', key='insert')
    # Approximation.
    if not cyc:
        m = n + 4 + case['extra']
        z = BSpline(p)
        pts = rs.uniform(-1, 1, (m, dim))
        alpha = case['alpha']
        z.approximate(pts, ncp=n, alpha=alpha, do_eval=True)
        d = np.linalg.norm(np.diff(pts, axis=0), axis=1) ** alpha
        tt = np.r_[0, np.cumsum(d) / d.sum()]
        kz = np.r_[[0] * p, np.linspace(0, 1, n - p + 1), [1] * p]
        N = np.array([cox(kz, p, v, span(kz, v))[0] for v in tt])
        if np.linalg.matrix_rank(N) == n and np.linalg.cond(N) < 1e4:
            best = np.linalg.lstsq(N, pts, rcond=None)[0]
            close(z.get_control_points(), best, 1e-6, 1e-7, 'approximation', key='approximation')
            close(z.curve_coors, N @ best, 1e-6, 1e-7, 'approximating curve', key='approximation')
    return {'nontrivial': case['extra'] > 0, 'classes': ['p%d' % p, 'cyclic' if cyc else 'open',
                                                        'insert' if case['insert'] else '-']}


bspline = st.fixed_dictionaries(dict(
    degree=st.integers(1, 4), extra=st.integers(0, 5), dim=st.integers(2, 3),
    cyclic=st.integers(0, 1), knots=st.integers(0, 1), insert=st.integers(0, 3),
    range=st.sampled_from([[0.0, 1.0], [0.0, 1.0], [0.0, 2.5], [-3.0, -1.0], [-0.5, 0.25],
                           [0.0, 40.0]]),
    alpha=st.sampled_from([0.5, 1.0]), seed=st.integers(0, 10 ** 6)))


def run_surf(case):
    rs = np.random.RandomState(case['seed'])
    ps, ns = case['degrees'], [p + 1 + e for p, e in zip(case['degrees'], case['extra'])]
    cyc = [bool(c) for c in case['cyclic']]
    s = BSplineSurf(tuple(ps), tuple(cyc))
    cp = rs.uniform(-1, 1, (ns[0], ns[1], 3))
    s.set_control_points(cp)
    close(s.get_control_points(), cp, 0, 0, 'control points', key='control-points')
    s.make_knot_vector(tuple('cyclic' if c else 'clamped' for c in cyc))
    Ns, ts = [], []
    full = cp
    for i in range(2):
        p, n = ps[i], ns[i]
        if cyc[i]:
            kv = np.arange(-p, n + p + 1) / n
            full = np.concatenate([full, np.take(full, range(p), axis=i)], axis=i)
        else:
            kv = np.r_[[0] * p, np.linspace(0, 1, n - p + 1), [1] * p]
        t = np.r_[rs.uniform(0, 1, 2 + i), 0, 1]
        Ns.append(np.array([cox(kv, p, v, span(kv[p:-p], v))[0] for v in t]))
        ts.append(t)
    want = np.einsum('ai,bj,ijk->abk', Ns[0], Ns[1], full)
    close(s.eval(tuple(t.copy() for t in ts)), want, 1e-9, 1e-9, 'surface', key='surface')
    if not any(cyc):
        # A sampled spline surface with uniform chords is approximated exactly: a bilinear one.
        z = BSplineSurf(tuple(ps))
        k = [n + 3 for n in ns]
        g = np.array([[[x, y, 0] for y in np.linspace(-1, 2, k[1])] for x in np.linspace(0, 3, k[0])])
        L = rs.uniform(-1, 1, (3, 3))
        pts = g @ (np.eye(3) + 0.2 * L) + rs.uniform(-1, 1, 3)
        z.approximate(pts, ns)
        tt = tuple(np.linspace(0, 1, q) for q in k)
        close(z.eval(tt), pts, 1e-6, 1e-6, 'approximated plane', key='surf-approximation')
    return True


surf = st.fixed_dictionaries(dict(
    degrees=st.lists(st.integers(1, 3), min_size=2, max_size=2),
    extra=st.lists(st.integers(0, 3), min_size=2, max_size=2),
    cyclic=st.lists(st.integers(0, 1), min_size=2, max_size=2), seed=st.integers(0, 10 ** 6)))


# --- spline boxes -----------------------------------------------------------------------------

def run_box(case):
    rs = np.random.RandomState(case['seed'])
    dim = case['dim']
    lo = np.array(case['lo'][:dim], dtype=float)
    hi = lo + np.array(case['size'][:dim])
    x = rs.uniform(lo, hi, (12, dim))
    corners = np.array(list(itertools.product(*zip(lo, hi))))
    x = np.vstack([x, corners, lo + (hi - lo) * rs.randint(0, 3, (4, dim)) / 2])
    outside = np.zeros(len(x), dtype=bool)
    if case['outside']:
        y = rs.uniform(lo - 1, hi + 1, (6, dim))
        inside = ((y >= lo) & (y <= hi)).all(1)
        x = np.vstack([x, y])
        outside = np.r_[outside, ~inside]
    perm = rs.permutation(len(x))
    x, outside = x[perm], outside[perm]
    x0 = x.copy()
    nsg = case['nsg'][:dim] if case['segments'] else None
    box = SplineBox(list(zip(lo, hi)), x, nsg=nsg)
    tol = 1e-9 * (1 + np.abs(x).max())
    close(box.evaluate(), x, 0, tol, 'identity', key='identity')
    n_cp = [3 + (s if nsg else 1) for s in case['nsg'][:dim]]
    cp = box.get_control_points().copy()
    check(cp.shape == (np.prod(n_cp), dim), 'control points %s', cp.shape, key='ncp')
    check(box.get_coors_shape() == x.shape, 'shape', key='ncp')
    M = box.get_box_matrix()
    close(M.sum(1), np.ones((~outside).sum()), 1e-12, 1e-12, 'partition of unity', key='unity')
    # Basis by the definition.
    Ns = []
    for ia in range(dim):
        kv = np.r_[[lo[ia]] * 3, np.linspace(lo[ia], hi[ia], n_cp[ia] - 2), [hi[ia]] * 3]
        Ns.append(np.array([cox(kv, 3, v, span(kv, v))[0] for v in x[~outside, ia]]))
    ref = Ns[0]
    for N in Ns[1:]:
        # The first axis is the fastest one.
        ref = np.einsum('aj,ai->aji', N, ref.reshape(len(N), -1)).reshape(len(N), -1)
    close(M, ref, 1e-9, 1e-10, 'box matrix', key='matrix')
    # Affine transformation of control points.
    A, c = rs.uniform(-1, 1, (dim, dim)), rs.uniform(-1, 1, dim)
    new = box.evaluate(cp @ A + c)
    want = x @ A + c
    want[outside] = x[outside]
    close(new, want, 1e-9, 10 * tol, 'affine transformation', key='affine')
    close(box.evaluate(cp @ A + c, outside=False), want[~outside], 1e-9, 10 * tol, 'inside',
          key='affine')
    # Moves of control points add up, derivative = movement.
    acc = np.zeros_like(x)
    for _ in range(3):
        ids = [rs.randint(n) for n in n_cp]
        flat = int(np.ravel_multi_index(ids[::-1], n_cp[::-1]))
        val = rs.uniform(-1, 1, dim)
        how = rs.randint(2)
        der = box.evaluate_derivative(ids if how else flat, val)
        close(der, ref[:, flat][:, None] * val, 1e-9, 1e-10, 'derivative', key='derivative')
        box.move_control_point(flat if how else ids, val)
        acc[~outside] += der
        close(box.evaluate(), x + acc, 1e-9, 10 * tol, 'moved control point', key='move')
    close(box.get_control_points(init=True), cp, 0, tol, 'initial control points', key='init')
    d = rs.uniform(-1, 1, cp.shape)
    cur = box.evaluate()
    box.set_control_points(d.copy(), add=True)
    acc2 = np.zeros_like(x)
    acc2[~outside] = ref @ d
    close(box.evaluate(), cur + acc2, 1e-9, 10 * tol, 'added control points', key='add')
    box.set_control_points(cp.copy())
    close(box.evaluate(), x, 0, tol, 'identity after reset', key='reset')
    check(np.array_equal(x, x0), 'coordinates changed', key='mutation')
    if case['field']:
        # A field given by splines is reproduced.
        k = case['field']
        coef = rs.uniform(-1, 1, (ref.shape[1], k))
        f = rs.uniform(-1, 1, (len(x), k))
        f[~outside] = ref @ coef
        b2 = SplineBox(list(zip(lo, hi)), x, nsg=nsg, field=f if k > 1 else f[:, 0])
        close(np.reshape(b2.evaluate(), f.shape), f, 1e-8, 1e-7, 'field', key='field')
    return {'nontrivial': True, 'classes': ['dim%d' % dim, 'out' if outside.any() else 'in',
                                            'field%d' % case['field']]}


box = st.fixed_dictionaries(dict(
    dim=st.integers(2, 3), lo=st.lists(st.sampled_from([0.0, -1.0, 2.0, -6.0, 10.0]), min_size=3,
                                       max_size=3),
    size=st.lists(st.sampled_from([1.0, 0.4, 3.0, 25.0]), min_size=3, max_size=3),
    nsg=st.lists(st.integers(1, 3), min_size=3, max_size=3), segments=st.integers(0, 1),
    outside=st.integers(0, 1), field=st.integers(0, 2), seed=st.integers(0, 10 ** 6)))


def run_region(case):
    rs = np.random.RandomState(case['seed'])
    # A quadrilateral with curved sides, counterclockwise.
    P = np.array([[0, 0], [2, 0], [2, 1.5], [0, 1.5]], dtype=float)
    P = P + rs.uniform(-0.15, 0.15, P.shape)
    n = [4 + case['n'][0], 4 + case['n'][1]]
    spl = []
    for i in range(4):
        a, b = P[i], P[(i + 1) % 4]
        k = n[i % 2]
        cp = a + np.linspace(0, 1, k)[:, None] * (b - a)
        nrm = np.array([b[1] - a[1], a[0] - b[0]])
        cp[1:-1] += case['bend'] * 0.05 * rs.uniform(-1, 1, (k - 2, 1)) * nrm
        s = BSpline(3)
        s.set_control_points(cp)
        s.make_knot_vector('clamped')
        spl.append(s)
    mid = P.mean(0)
    x = mid + rs.uniform(0, 0.8, (5, 1)) * (P[rs.randint(0, 4, 5)] - mid) * rs.uniform(0.3, 1, (5, 1))
    far = mid + rs.uniform(3, 4, (3, 1)) * rs.choice([-1, 1], (3, 2))
    x = np.vstack([x, far])
    box = SplineRegion2D(spl, x, rho=200)
    got = box.evaluate(outside=False)
    ids = np.sort(box.idxs_inside)
    check(np.array_equal(ids, np.arange(5)), 'points inside: %s', ids, key='inside')
    close(got, x[box.idxs_inside], 0, 2e-3, 'identity of the region', key='region-identity')
    cp = box.get_control_points().copy()
    A, c = rs.uniform(-1, 1, (2, 2)), rs.uniform(-1, 1, 2)
    close(box.evaluate(cp @ A + c, outside=False), got @ A + c, 1e-8, 1e-8, 'affine', key='region-affine')
    return True


region = st.fixed_dictionaries(dict(n=st.lists(st.integers(0, 2), min_size=2, max_size=2),
                                    bend=st.integers(0, 1), seed=st.integers(0, 10 ** 6)))

SUBS = [
    Sub('nurbs', patch_strategy, run_nurbs, 120, 6000),
    Sub('domain', domain_strategy, run_domain, 60, 2500),
    Sub('bspline', lambda item=None: bspline, run_bspline, 250, 12000),
    Sub('surf', lambda item=None: surf, run_surf, 100, 5000),
    Sub('box', lambda item=None: box, run_box, 120, 6000),
    Sub('region', lambda item=None: region, run_region, 8, 200),
]
