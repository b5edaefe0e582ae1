"""D01: discontinuous Galerkin fields, fluxes, limiters and explicit multistage solvers."""
import itertools
import numpy as np
from hypothesis import strategies as st

import sfepy.discrete  # noqa: F401 (import order)
from sfepy.base.base import Struct
from sfepy.discrete import (DGFieldVariable, Equation, Equations, Function, Integral, Material, Problem)
from sfepy.discrete.conditions import Conditions, DGEssentialBC, DGPeriodicBC, InitialCondition
from sfepy.discrete.dg.fields import DGField
from sfepy.discrete.dg.limiters import (IdentityLimiter, MomentLimiter1D, MomentLimiter2D,
                                        ComposedLimiter, minmod, minmod_seq)
from sfepy.discrete.fem import FEDomain, Mesh
from sfepy.solvers.ls import ScipyDirect
from sfepy.solvers.nls import Newton
from sfepy.solvers.ts_dg_solvers import EulerStepSolver, TVDRK3StepSolver, RK4StepSolver
from sfepy.terms import Term

from harness import Sub, check, close, Violation

PROP = 'D01'
RULE = ('Cases: line, parallelogram and triangle meshes with uneven cell sizes, permuted cells and rotated local '
        'numberings x orders x an independent polynomial in each cell x boundary data.  Oracle: the exact '
        'polynomials, quadratures of the documented fluxes over the physical facets; per-cell limiting; '
        'matrix polynomials of the one step methods.  Non-trivial: more than one cell and a positive order.')
ASSUMPTIONS = ['affine cells', 'scalar fields', 'constant velocities and diffusion',
               'periodic sides that differ by a translation']


# ---------------------------------------------------------------- meshes
@st.composite
def meshes(draw, kinds=('1_2', '2_4', '2_3'), plain=False, nmax=4):
    kind = draw(st.sampled_from(kinds))
    w = st.integers(3, 15).map(lambda k: k / 10.)
    case = dict(kind=kind, hx=draw(st.lists(w, min_size=1, max_size=6 if kind == '1_2' else nmax)))
    if kind != '1_2':
        case['hy'] = draw(st.lists(w, min_size=1, max_size=nmax))
        case['shear'] = 0. if plain else draw(st.sampled_from([0., 0., 0.4, -0.7]))
        case['turn'] = 0. if plain else draw(st.sampled_from([0., 0., 0.5, 2.0]))
    case['perm'] = None if plain else draw(st.one_of(st.none(), st.integers(0, 10**6)))
    return case


def make_mesh(case):
    """Coordinates, connectivity."""
    kind = case['kind']
    x = np.r_[0., np.cumsum(case['hx'])]
    if kind == '1_2':
        coors = x[:, None]
        conn = np.array([[i, i + 1] for i in range(len(x) - 1)])
    else:
        y = np.r_[0., np.cumsum(case['hy'])]
        nx, ny = len(x), len(y)
        coors = np.array([[a, b] for a in x for b in y])
        conn = np.array([[i * ny + j, (i + 1) * ny + j, (i + 1) * ny + j + 1, i * ny + j + 1]
                         for i in range(nx - 1) for j in range(ny - 1)])
        if kind == '2_3':
            tri = []
            for k, q in enumerate(conn):
                tri += ([q[[0, 1, 2]], q[[0, 2, 3]]] if (k * 7) % 3 else [q[[0, 1, 3]], q[[1, 2, 3]]])
            conn = np.array(tri)
        c, s = np.cos(case['turn']), np.sin(case['turn'])
        coors = coors @ np.array([[1, 0], [case['shear'], 1]]) @ np.array([[c, s], [-s, c]])
    if case['perm'] is not None:
        rng = np.random.default_rng(case['perm'])
        conn = conn[rng.permutation(len(conn))]
        if kind != '1_2':
            conn = np.array([np.roll(q, rng.integers(0, len(q))) for q in conn])
    return coors, conn


def sides(case, coors, conn):
    """Boundary vertex sets of the (mapped) rectangle: {name: vertices}."""
    if case['kind'] == '1_2':
        return {'left': [0], 'right': [len(coors) - 1]}
    nx, ny = len(case['hx']) + 1, len(case['hy']) + 1
    ids = np.arange(nx * ny).reshape(nx, ny)
    return {'left': ids[0], 'right': ids[-1], 'bottom': ids[:, 0], 'top': ids[:, -1]}


class Ctx:
    def __init__(self, case, order, field=True):
        self.case, self.order = case, order
        self.coors, self.conn = make_mesh(case)
        self.dim = self.coors.shape[1]
        self.nc = len(self.conn)
        mesh = Mesh.from_data('m', self.coors, None, [self.conn.astype(np.int32)],
                              [np.zeros(self.nc, dtype=np.int32)], [case['kind']])
        self.domain = FEDomain('d', mesh)
        self.omega = self.domain.create_region('Omega', 'all')
        self.field = DGField('f', np.float64, 'scalar', self.omega, space='DG', approx_order=order)
        self.u = DGFieldVariable('u', 'unknown', self.field, history=1)
        self.v = DGFieldVariable('v', 'test', self.field, primary_var_name='u')
        # Own facets: vertices in the local order.
        nv = self.conn.shape[1]
        if self.dim == 1:
            self.facets = self.conn[:, :, None]
        else:
            self.facets = np.stack([self.conn, np.roll(self.conn, -1, axis=1)], axis=-1)
        self.nf = nv
        owner = {}
        for c, f in itertools.product(range(self.nc), range(nv)):
            owner.setdefault(tuple(sorted(self.facets[c, f])), []).append((c, f))
        self.nbr = -np.ones((self.nc, nv, 2), dtype=int)
        for pair in owner.values():
            if len(pair) == 2:
                self.nbr[pair[0]], self.nbr[pair[1]] = pair[1], pair[0]
        self.x0 = self.coors[self.conn].mean(axis=1)
        if self.dim == 1:
            self.vols = np.ones((self.nc, 2))
            self.normals = np.sign(self.coors[self.facets[:, :, 0]] - self.x0[:, None])
        else:
            t = self.coors[self.facets[..., 1]] - self.coors[self.facets[..., 0]]
            self.vols = np.linalg.norm(t, axis=-1)
            self.normals = np.stack([t[..., 1], -t[..., 0]], axis=-1) / self.vols[..., None]
        # Exponents of the cell polynomials, coordinates relative to the cell centres.
        self.exps = [e for e in itertools.product(range(order + 1), repeat=self.dim) if sum(e) <= order]

    def points(self, t):
        """Facet points (cell, facet, point, dim)."""
        fc = self.coors[self.facets]
        if self.dim == 1:
            return fc[:, :, :1] * np.ones((1, 1, len(t), 1))
        return fc[:, :, :1] * (1 - t)[:, None] + fc[:, :, 1:] * t[:, None]

    def mono(self, x, cells, diff=None):
        """Monomials of the given cells in points x (..., dim)."""
        y = x - self.x0[cells]
        out = []
        for e in self.exps:
            val = 1.
            for k, p in enumerate(e):
                if k == diff:
                    val = val * (p * y[..., k] ** (p - 1) if p else 0. * y[..., k])
                else:
                    val = val * y[..., k] ** p
            out.append(val)
        return np.stack(out, axis=-1)

    def ref(self, cell, x):
        """Reference coordinates."""
        vx = self.coors[self.conn[cell]]
        if self.dim == 1:
            A = (vx[1] - vx[0])[:, None]
        elif self.nf == 3:
            A = np.array([vx[1] - vx[0], vx[2] - vx[0]]).T
        else:
            A = np.array([vx[1] - vx[0], vx[3] - vx[0]]).T
        return np.linalg.solve(A, (x - vx[0]).T).T

    def basis(self, ref):
        return self.field.poly_space.eval_basis(np.ascontiguousarray(ref))[:, 0, :]

    def polydofs(self, C):
        """DOFs of the cell polynomials with the coefficients C, by own fitting."""
        n = 2 * self.order + 3
        g = (np.arange(n) + 0.5) / n
        out = np.zeros((self.nc, self.field.n_el_nod))
        for c in range(self.nc):
            vx = self.coors[self.conn[c]]
            if self.dim == 1:
                x = vx[0] + g[:, None] * (vx[1] - vx[0])
            else:
                G = np.array(list(itertools.product(g, g)))
                e2 = vx[3] if self.nf == 4 else vx[2]
                if self.nf == 3:
                    G = G[G.sum(axis=1) < 1]
                x = vx[0] + G[:, :1] * (vx[1] - vx[0]) + G[:, 1:] * (e2 - vx[0])
            out[c] = np.linalg.lstsq(self.basis(self.ref(c, x)), self.mono(x, c) @ C[c], rcond=None)[0]
        return out

    def rand(self, rng, n=None):
        return rng.uniform(-1, 1, (self.nc, len(self.exps)))


def problem(ctx, term, ebcs=(), epbcs=(), mats=(), qorder=None, **funs):
    integral = Integral('i', order=2 * ctx.order if qorder is None else qorder)
    kw = {'u': ctx.u, 'v': ctx.v}
    kw.update({m.name: m for m in mats})
    kw.update(funs)
    if isinstance(term, str):
        term = [term]
    ts = None
    for t in term:
        sign, t = (-1, t[1:]) if t[0] == '-' else (1, t)
        new = sign * Term.new(t, integral, ctx.omega, **kw)
        ts = new if ts is None else ts + new
    eq = Equation('e', ts)
    pb = Problem('p', equations=Equations([eq]), active_only=False)
    pb.set_bcs(ebcs=Conditions(list(ebcs)), epbcs=Conditions(list(epbcs)) if epbcs else None)
    pb.time_update()
    pb.update_materials(verbose=False)
    pb.equations.variables.init_state()
    return pb


def residual(pb, ctx, vec):
    pb.equations.variables.set_state(vec.ravel().copy(), False)
    return pb.equations.eval_residuals(vec.ravel().copy()).reshape((ctx.nc, -1))


def matrix(pb, ctx, vec):
    pb.equations.variables.set_state(vec.ravel().copy(), False)
    mtx = pb.equations.create_matrix_graph() if pb.mtx_a is None else pb.mtx_a
    mtx = mtx.copy()
    mtx.data[:] = 0.
    return pb.equations.eval_tangent_matrices(vec.ravel().copy(), mtx).toarray()


def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


# ---------------------------------------------------------------- fields
@st.composite
def field_cases(draw):
    mesh = draw(meshes())
    return dict(mesh=mesh, order=draw(st.integers(0, 4 if mesh['kind'] == '1_2' else 3)),
                seed=draw(st.integers(0, 10**6)), bc=draw(st.booleans()))


def poly(coef, exps, x):
    return sum(c * np.prod([x[..., k] ** p for k, p in enumerate(e)], axis=0) for c, e in zip(coef, exps))


def run_field(case):
    ctx = Ctx(case['mesh'], case['order'])
    rng = np.random.default_rng(case['seed'])
    f, o = ctx.field, ctx.order
    coef = rng.uniform(-1, 1, len(ctx.exps))
    fun = lambda x: poly(coef, ctx.exps, x)
    # Projection of polynomials.
    nods, vals = f.set_dofs(fun)
    dofs = np.zeros(f.n_nod)
    dofs[nods] = np.ravel(vals)
    C = ctx.rand(rng)
    own = ctx.polydofs(C)
    for c in range(ctx.nc):
        lam = rng.dirichlet(np.ones(ctx.nf), 6)
        x = lam @ ctx.coors[ctx.conn[c]]
        ux = ctx.basis(ctx.ref(c, x)) @ dofs.reshape((ctx.nc, -1))[c]
        close(ux, fun(x), 1e-8, 1e-9, 'a polynomial of the field order is not reproduced', scale=1.)
    x, val = f.get_nodal_values(dofs[:, None], ctx.omega)
    x = np.asarray(x).reshape((ctx.nc, -1, ctx.dim))
    close(np.asarray(val).reshape(x.shape[:2]), fun(x), 1e-8, 1e-9, 'get_nodal_values()', scale=1.)
    # Facets.
    mats = [Material('a', values={'val': np.ones((ctx.dim, 1))})]
    bcs, bfun = [], lambda x: 0. * x[..., 0]
    if case['bc']:
        gamma = ctx.domain.create_region('Gamma', 'vertices of surface', 'facet')
        bfun = lambda x: np.cos(x.sum(axis=-1)) + x[..., 0]
        bcs = [DGEssentialBC('b', gamma, {'u.all': Function('g', lambda ts, coors, **kw: bfun(coors))})]
    pb = problem(ctx, 'dw_dg_advect_laxfrie_flux(a.val, v, u)', bcs, mats=mats)
    nbr = f.get_facet_neighbor_idx(ctx.omega, ctx.u.eq_map)
    check(np.array_equal(nbr, ctx.nbr), 'facet neighbours %s, expected %s', nbr.tolist(), ctx.nbr.tolist())
    close(f.get_cell_normals_per_facet(ctx.omega), ctx.normals, 1e-9, 1e-10, 'facet normals')
    close(f.get_facet_vols(ctx.omega)[..., 0], ctx.vols, 1e-9, 1e-10, 'facet volumes')
    pb.equations.variables.set_state(own.ravel().copy(), False)
    qp, w = f.get_facet_qp()
    if ctx.dim == 1:
        t = np.zeros(1)
    else:
        t = qp[:, 0, 0, 0]
    vin, vout, whs = f.get_both_facet_state_vals(ctx.u, ctx.omega)
    X = ctx.points(t)
    close(whs.sum(axis=-1), ctx.vols, 1e-9, 1e-10, 'sums of the facet quadrature weights')
    for c, k in itertools.product(range(ctx.nc), range(ctx.nf)):
        close(vin[c, k], ctx.mono(X[c, k], c) @ C[c], 1e-8, 1e-9, 'inner values on a facet', scale=1.)
        n = ctx.nbr[c, k, 0]
        exp = ctx.mono(X[c, k], n) @ C[n] if n >= 0 else bfun(X[c, k])
        close(vout[c, k], exp, 1e-8, 1e-9, 'outer values on %s facet' % ('an interior' if n >= 0 else 'a boundary'),
              scale=1.)
    return info(ctx.nc > 1 and o > 0, '%s o%d' % (case['mesh']['kind'], o), 'bc' if case['bc'] else 'free',
                'permuted' if case['mesh']['perm'] is not None else 'ordered')


# ---------------------------------------------------------------- fluxes
FLUXES = ['advect', 'advect-alpha', 'nonlinear', 'nonlinear-alpha', 'penalty', 'diff-state', 'diff-virtual']


@st.composite
def flux_cases(draw, item=None):
    mesh = draw(meshes())
    per = draw(st.booleans()) and mesh['kind'] != '2_3'
    return dict(term=item or draw(st.sampled_from(FLUXES)), mesh=mesh, per=per,
                order=draw(st.integers(0 if item != 'penalty' else 1, 3)), seed=draw(st.integers(0, 10**6)),
                bc=draw(st.booleans()), alpha=draw(st.sampled_from([0., 0.3, 1.])))


def outer(ctx, case, X, C, bfun):
    """Outer cell, its points and the shift for each facet; outer cell -1: boundary."""
    nbr = ctx.nbr[..., 0].copy()
    shift = np.zeros((ctx.nc, ctx.nf, ctx.dim))
    epbcs = []
    if case['per']:
        sd = sides(case['mesh'], ctx.coors, ctx.conn)
        a, b = set(map(int, sd['right'])), set(map(int, sd['left']))
        cen = ctx.coors[ctx.facets].mean(axis=2)
        d = ctx.coors[min(b)] - ctx.coors[min(a)]
        fa = [(c, k) for c, k in itertools.product(range(ctx.nc), range(ctx.nf)) if set(map(int, ctx.facets[c, k])) <= a]
        fb = [(c, k) for c, k in itertools.product(range(ctx.nc), range(ctx.nf)) if set(map(int, ctx.facets[c, k])) <= b]
        for p in fa:
            for q in fb:
                if np.allclose(cen[p] + d, cen[q]):
                    nbr[p], nbr[q] = q[0], p[0]
                    shift[p], shift[q] = d, -d
        kind = 'vertex' if ctx.dim == 1 else 'facet'
        rs = [ctx.domain.create_region(n, 'vertex %s' % ', '.join(map(str, sd[n])), kind) for n in ('right', 'left')]
        epbcs = [DGPeriodicBC('per', rs, {'u.all': 'u.all'}, Function('match', match))]
    return nbr, shift, epbcs


def match(coors1, coors2):
    """Facets of two sides that differ by a translation."""
    c1, c2 = (np.round(c - c.mean(axis=0), 8) + 0. for c in (coors1, coors2))
    return np.lexsort(c1.T), np.lexsort(c2.T)


def run_flux(case):
    ctx = Ctx(case['mesh'], case['order'])
    rng = np.random.default_rng(case['seed'])
    o, f, name = ctx.order, ctx.field, case['term']
    C, T = ctx.rand(rng), ctx.rand(rng)
    a = rng.uniform(-1, 1, ctx.dim)
    D, Cw = rng.uniform(0.5, 2.), rng.uniform(1, 10)
    alpha = case['alpha'] if name.endswith('alpha') else 0.
    b2 = rng.uniform(-1, 1, ctx.dim)
    mats = [Material('a', values={'val': a[:, None], '.alpha': alpha, '.Cw': Cw, '.D': D}),
            Material('d', values={'D': np.array([[D]])})]
    funs = dict(nf=lambda p: a * p[..., None] ** 2 + b2 * p[..., None], ndf=lambda p: 2 * a * p[..., None] + b2)
    term = {'advect': 'dw_dg_advect_laxfrie_flux(a.val, v, u)',
            'advect-alpha': 'dw_dg_advect_laxfrie_flux(a.alpha, a.val, v, u)',
            'nonlinear': 'dw_dg_nonlinear_laxfrie_flux(nf, ndf, v, u)',
            'nonlinear-alpha': 'dw_dg_nonlinear_laxfrie_flux(a.alpha, nf, ndf, v, u)',
            'penalty': 'dw_dg_interior_penalty(d.D, a.Cw, v, u)',
            'diff-state': 'dw_dg_diffusion_flux(d.D, u, v)',
            'diff-virtual': 'dw_dg_diffusion_flux(d.D, v, u)'}[name]
    t, w = (np.zeros(1), np.ones(1)) if ctx.dim == 1 else gauss(2 * o + 2)
    if ctx.dim > 1 and name.startswith('nonlinear'):
        # The maximal wave speed is taken over the quadrature points.
        qp, ww = f.get_facet_qp()
        t, w = qp[:, 0, 0, 0], ww[0, :, 0]
    X = ctx.points(t)
    W = ctx.vols[..., None] * w
    bfun = lambda x: np.sin(x.sum(axis=-1)) + x[..., 0]
    nbr, shift, epbcs = outer(ctx, case, X, C, bfun)
    bcs = []
    if case['bc']:
        names = [n for n in sides(case['mesh'], ctx.coors, ctx.conn) if not (case['per'] and n in ('left', 'right'))]
        pol = rng.uniform(-1, 1, len(ctx.exps))
        bfun = lambda x: poly(pol, ctx.exps, x)
        sd = sides(case['mesh'], ctx.coors, ctx.conn)
        for n in names:
            reg = ctx.domain.create_region('B' + n, 'vertex %s' % ', '.join(map(str, sd[n])),
                                           'vertex' if ctx.dim == 1 else 'facet')
            bcs.append(DGEssentialBC(n, reg, {'u.all': Function('g', lambda ts, coors, **kw: bfun(coors))}))
    else:
        bfun = lambda x: 0. * x[..., 0]
    vec = ctx.polydofs(C)
    tst = ctx.polydofs(T)
    pb = problem(ctx, term, bcs, epbcs, mats, **funs)
    got = (residual(pb, ctx, vec) * tst).sum(axis=1)
    # Reference.
    exp = np.zeros(ctx.nc)
    inner_flux = {}
    for c, k in itertools.product(range(ctx.nc), range(ctx.nf)):
        x, nn = X[c, k], ctx.normals[c, k]
        q = ctx.mono(x, c) @ T[c]
        pin = ctx.mono(x, c) @ C[c]
        n = nbr[c, k]
        xo = x + shift[c, k]
        pout = ctx.mono(xo, n) @ C[n] if n >= 0 else bfun(x)
        if name.startswith('advect'):
            an = a @ nn
            flux = an * (pin + pout) / 2 + (1 - alpha) * abs(an) * (pin - pout) / 2
        elif name.startswith('nonlinear'):
            F = lambda p: (a @ nn) * p ** 2 + (b2 @ nn) * p
            dF = lambda p: 2 * (a @ nn) * p + (b2 @ nn)
            S = max(abs(dF(pin)).max(), abs(dF(pout)).max())
            flux = (F(pin) + F(pout)) / 2 + (1 - alpha) * S * (pin - pout) / 2
        elif name == 'penalty':
            flux = D * Cw * o ** 2 / ctx.vols[c, k] * (pin - pout)
        else:
            gin = sum(nn[i] * (ctx.mono(x, c, i) @ C[c]) for i in range(ctx.dim))
            gout = sum(nn[i] * (ctx.mono(xo, n, i) @ C[n]) for i in range(ctx.dim)) if n >= 0 else 0.
            gq = sum(nn[i] * (ctx.mono(x, c, i) @ T[c]) for i in range(ctx.dim))
            flux = D * (gin + gout) / 2 if name == 'diff-state' else D * (pin - pout)
            q = q if name == 'diff-state' else gq / 2
        exp[c] += (W[c, k] * q * flux).sum()
    close(got, exp, 1e-7, 1e-8, '%s: the cell fluxes' % name, scale=max(1., abs(exp).max()))
    if not name.startswith('nonlinear'):
        M = matrix(pb, ctx, vec)
        z = residual(pb, ctx, 0. * vec).ravel()
        r = residual(pb, ctx, vec).ravel()
        if not bcs:
            close(M @ vec.ravel(), r, 1e-8, 1e-9, '%s: matrix times the state is not the residual' % name,
                  scale=max(1., abs(r).max()))
        else:
            close(M @ vec.ravel(), r - z, 1e-8, 1e-9, '%s: the matrix is not the derivative of the residual' % name,
                  scale=max(1., abs(r).max()))
    # Conservation: the interior fluxes cancel in the sum with the constant test function.
    if name.split('-')[0] in ('advect', 'nonlinear', 'penalty') or name == 'diff-state':
        one = ctx.polydofs(np.r_[1., np.zeros(len(ctx.exps) - 1)] * np.ones((ctx.nc, 1)))
        if case['per'] and ctx.dim == 1 and name != 'penalty':
            tot = (residual(pb, ctx, vec) * one).sum()
            close(tot, 0., 1e-8, 1e-8, '%s: the scheme is not conservative' % name, scale=max(1., abs(exp).max()))
    return info(ctx.nc > 1 and o > 0, name, case['mesh']['kind'], 'periodic' if case['per'] else 'open',
                'bc' if case['bc'] else 'no bc')


# ---------------------------------------------------------------- limiters
@st.composite
def lim_cases(draw, item=None):
    kind = draw(st.sampled_from(['1_2', '2_4', 'seq']))
    case = dict(kind=kind, seed=draw(st.integers(0, 10**6)), order=draw(st.integers(0, 3)),
                data=draw(st.sampled_from(['random', 'smooth', 'linear', 'integers'])),
                nx=draw(st.integers(1, 7)), ny=draw(st.integers(1, 5)))
    return case


def mm(vals):
    s = np.sign(vals)
    return s[0] * min(abs(v) for v in vals) if all(x == s[0] for x in s) else 0.


def run_lim(case):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'seq':
        k = case['nx'] + 1
        A = rng.integers(-3, 4, (k, 8, 1)).astype(float) * (1 if case['order'] else np.sign(rng.uniform(-1, 1, (1, 8, 1))))
        if case['data'] == 'smooth':
            A = abs(A) * np.sign(rng.uniform(-1, 1, (1, 8, 1)))
        exp = np.array([mm(A[:, i, 0]) for i in range(8)])
        close(minmod_seq(list(A))[:, 0], exp, msg='minmod_seq()')
        if k >= 3:
            close(minmod(A[0], A[1], A[2])[:, 0], [mm(A[:3, i, 0]) for i in range(8)], msg='minmod()')
        return info(True, 'minmod')
    o = case['order']
    mesh = dict(kind=case['kind'], hx=[0.5] * case['nx'], hy=[0.7] * case['ny'], shear=0., turn=0., perm=None)
    ctx = Ctx(mesh, o)
    f = ctx.field
    nd = f.n_el_nod
    if case['data'] == 'linear' or case['data'] == 'smooth':
        g = rng.uniform(-2, 2, ctx.dim)
        fun = (lambda x: 1 + x @ g) if case['data'] == 'linear' else (lambda x: np.sin(x @ g))
        nods, vals = f.set_dofs(fun)
        U = np.ravel(vals).reshape((ctx.nc, nd)).copy()
    elif case['data'] == 'integers':
        U = rng.integers(-2, 3, (ctx.nc, nd)).astype(float)
    else:
        U = rng.uniform(-1, 1, (ctx.nc, nd))
    mats = [Material('a', values={'val': np.ones((ctx.dim, 1))})]
    problem(ctx, 'dw_dg_advect_laxfrie_flux(a.val, v, u)', mats=mats)
    f.get_facet_neighbor_idx(ctx.omega, ctx.u.eq_map)
    u0 = U.ravel().copy()
    cls = MomentLimiter1D if ctx.dim == 1 else MomentLimiter2D
    got = ComposedLimiter([f], [cls])(u0)
    check(np.array_equal(u0, U.ravel()), 'the limiter changed its argument')
    got = np.asarray(got).reshape((ctx.nc, nd))
    close(got[:, 0], U[:, 0], 1e-12, 1e-13, 'the limiter changed the cell means')
    exp = U.copy()
    if ctx.dim == 1:
        idx = {(l,): l for l in range(o + 1)}
    else:
        # Modes sorted by the total order; the tensor product ones last.
        pairs = [(i, k - i) for k in range(o + 1) for i in range(k + 1)]
        pairs += [(i, k) for k in range(1, o + 1) for i in range(1, o + 1) if i + k > o]
        idx = {p: n for n, p in enumerate(pairs)}
        check(len(pairs) == nd, 'number of modes %d', nd)
    cells = [c for c in range(ctx.nc) if (ctx.nbr[c, :, 0] >= 0).all()]
    step = {0: (1, 3), 1: (2, 0)} if ctx.dim == 2 else {0: (1, 0)}
    cur = {p: U[:, n].copy() for p, n in idx.items()}
    act = list(cells)
    for p in sorted(idx, key=lambda p: -idx[p]):
        if not any(p):
            break
        new, keep = {}, []
        for c in act:
            args = [cur[p][c]]
            for d in range(ctx.dim):
                if p[d] > 0:
                    low = tuple(x - (i == d) for i, x in enumerate(p))
                    alf = np.sqrt((2. * p[d] - 1) / (2 * p[d] + 1)) if ctx.dim == 2 else 1.
                    up, dn = ctx.nbr[c, step[d][0], 0], ctx.nbr[c, step[d][1], 0]
                    args += [alf * (cur[low][up] - cur[low][c]), alf * (cur[low][c] - cur[low][dn])]
            val = mm(args)
            if abs(val - cur[p][c]) > 1e-30:
                keep.append(c)
                new[c] = val
        for c, val in new.items():
            cur[p][c] = val
        act = keep
    for p, n in idx.items():
        exp[:, n] = cur[p]
    if case['data'] not in ('linear',):
        close(got, exp, 1e-10, 1e-12, 'limited coefficients')
    else:
        close(got, U, 1e-9, 1e-10, 'the limiter changed linear data', scale=1.)
    return info(cells and o > 0, '%dD %s o%d' % (ctx.dim, case['data'], o))


# ---------------------------------------------------------------- time stepping
@st.composite
def step_cases(draw, item=None):
    mesh = draw(meshes(kinds=('1_2', '1_2', '2_4'), nmax=3))
    return dict(solver=item or draw(st.sampled_from(['euler', 'tvd', 'rk4'])), mesh=mesh,
                order=draw(st.integers(0, 2)), n=draw(st.integers(2, 5)), seed=draw(st.integers(0, 10**6)),
                dt=draw(st.sampled_from([1e-3, 1e-2])), per=draw(st.booleans()), src=draw(st.booleans()),
                alpha=draw(st.sampled_from([0., 0.5])))


SOLVERS = {'euler': EulerStepSolver, 'tvd': TVDRK3StepSolver, 'rk4': RK4StepSolver}


def run_steps(case):
    ctx = Ctx(case['mesh'], case['order'])
    rng = np.random.default_rng(case['seed'])
    a = rng.uniform(-1, 1, ctx.dim)
    mats = [Material('a', values={'val': a[:, None], '.alpha': case['alpha']})]
    nbr, shift, epbcs = outer(ctx, case, None, None, None)
    bcs = []
    if case['src']:
        name = 'Bleft' if not case['per'] else 'Btop'
        sd = sides(case['mesh'], ctx.coors, ctx.conn)
        if name[1:] in sd:
            reg = ctx.domain.create_region(name, 'vertex %s' % ', '.join(map(str, sd[name[1:]])),
                                           'vertex' if ctx.dim == 1 else 'facet')
            bcs = [DGEssentialBC('b', reg, {'u.all': 0.7})]
    pb = problem(ctx, ['dw_dot(v, u)', '-dw_s_dot_mgrad_s(a.val, u[-1], v)',
                       'dw_dg_advect_laxfrie_flux(a.alpha, a.val, v, u[-1])'], bcs, epbcs, mats)
    u0 = rng.uniform(-1, 1, (ctx.nc, ctx.field.n_el_nod))
    n = u0.size
    # The mass matrix and the discrete operator by parts.
    kw = dict(u=ctx.u, v=ctx.v, a=mats[0])
    parts = problem(ctx, ['-dw_s_dot_mgrad_s(a.val, u, v)', 'dw_dg_advect_laxfrie_flux(a.alpha, a.val, v, u)'],
                    bcs, epbcs, mats)
    L = np.array([residual(parts, ctx, e).ravel() for e in np.eye(n)]).T
    b = residual(parts, ctx, np.zeros(n)).ravel()
    L = L - b[:, None]
    M = matrix(problem(ctx, 'dw_dot(v, u)', bcs, epbcs, mats), ctx, u0)
    A, bb = np.linalg.solve(M, L), np.linalg.solve(M, b)

    pb = problem(ctx, ['dw_dot(v, u)', '-dw_s_dot_mgrad_s(a.val, u[-1], v)',
                       'dw_dg_advect_laxfrie_flux(a.alpha, a.val, v, u[-1])'], bcs, epbcs, mats)
    pb.set_bcs(ebcs=Conditions(list(bcs)), epbcs=Conditions(list(epbcs)) if epbcs else None)
    pb.set_ics(Conditions([InitialCondition('ic', ctx.omega, {'u.all': u0.ravel().copy()})]))
    ls = ScipyDirect({})
    nls = Newton({}, lin_solver=ls)
    dt, N = case['dt'], case['n']
    tss = SOLVERS[case['solver']]({'t0': 0.5, 't1': 0.5 + dt * (N - 1), 'n_step': N, 'verbose': False},
                                  nls=nls, context=pb, verbose=False)
    pb.set_solver(tss)
    hist = []
    pb.solve(save_results=False, step_hook=lambda p, ts, vs: hist.append((ts.step, ts.time, vs.vec.copy())),
             verbose=False)
    check([h[0] for h in hist] == list(range(N)), 'step hook called in steps %s', [h[0] for h in hist])
    close([h[1] for h in hist], 0.5 + dt * np.arange(N), 1e-9, 1e-12, 'times of the steps')
    rhs = lambda x: -(A @ x + bb)
    x = u0.ravel().copy()
    for k in range(N):
        close(hist[k][2], x, 1e-8, 1e-9, '%s: state in step %d' % (case['solver'], k), scale=1.)
        if case['solver'] == 'euler':
            x = x + dt * rhs(x)
        elif case['solver'] == 'tvd':
            x1 = x + dt * rhs(x)
            x2 = 0.75 * x + 0.25 * (x1 + dt * rhs(x1))
            x = x / 3 + 2. / 3 * (x2 + dt * rhs(x2))
        else:
            k1 = rhs(x)
            k2 = rhs(x + dt / 2 * k1)
            k3 = rhs(x + dt / 2 * k2)
            k4 = rhs(x + dt * k3)
            x = x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return info(ctx.nc > 1, case['solver'], case['mesh']['kind'], 'source' if bcs else 'free')


def info(nt, *classes):
    return dict(nontrivial=bool(nt), classes=list(classes))


def bound(strategy):
    return lambda item=None: strategy(item=item)


SUBS = [
    Sub('field', lambda item: field_cases(), run_field, n=60, thorough=400),
    Sub('flux', bound(flux_cases), run_flux, n=30, thorough=200, items=FLUXES),
    Sub('limiter', lambda item: lim_cases(), run_lim, n=120, thorough=1000),
    Sub('steps', bound(step_cases), run_steps, n=12, thorough=80, items=['euler', 'tvd', 'rk4']),
]
