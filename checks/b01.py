"""B01: basis functions satisfy their defining identities everywhere."""
import itertools

import numpy as np
import hypothesis.strategies as st
from numpy.polynomial import chebyshev as C

import gen
from harness import Sub, check, close

from sfepy.discrete import PolySpace
from sfepy.discrete.fem.geometry_element import GeometryElement

PROP = 'B01'
RULE = ('Cases: every basis family on every reference cell supporting it, an order, and random '
        'evaluation points inside of the cell and on its vertices, edges and faces.  The functions '
        'are identified by exact interpolation in a Chebyshev product basis, which gives the '
        'spanned space, the values and the derivatives at any other point.  Non-trivial: order '
        'at least 1.')
ASSUMPTIONS = ['the bubble enriched basis is nodal for order 1, independent up to order 2 in 2D '
               'and 3 in 3D', 'second derivatives only for the Lagrange bases',
               'Legendre bases in 3D do not exist in the code',
               'orders up to 7 (lines), 6 (2D), 5 (tetrahedra), 4 (hexahedra, wedges)']

FAMS = {
    '1_2': ['lagrange', 'bubble', 'lobatto', 'bernstein', 'sem', 'legendre'],
    '2_3': ['lagrange', 'bubble', 'bernstein', 'legendre'],
    '2_4': ['lagrange', 'serendipity', 'lobatto', 'bernstein', 'sem', 'legendre'],
    '3_4': ['lagrange', 'bubble', 'bernstein'],
    '3_6': ['lagrange'],
    '3_8': ['lagrange', 'serendipity', 'lobatto', 'bernstein', 'sem'],
}
MAXO = {'1_2': 7, '2_3': 6, '2_4': 6, '3_4': 5, '3_6': 4, '3_8': 4}
SIMPLEX = ('1_2', '2_3', '3_4')


def orders(g, fam):
    lo = 1 if fam in ('serendipity', 'lobatto', 'sem', 'bubble') else 0
    hi = MAXO[g]
    if fam == 'serendipity':
        hi = 3
    if fam == 'legendre' and g == '2_3':
        hi = 5  # Documented.
    if fam == 'bubble':
        hi = {'1_2': 1, '2_3': 2, '3_4': 3}[g]
    return lo, hi


def space(g, fam, k):
    """Exponents of the declared space, or of a space containing it."""
    dim = int(g[0])
    if fam == 'bubble':
        return [e for e in itertools.product(range(dim + 2), repeat=dim)
                if sum(e) <= max(k, dim + 1)]
    if g in SIMPLEX:
        return [e for e in itertools.product(range(k + 1), repeat=dim) if sum(e) <= k]
    if g == '3_6':
        return [e for e in itertools.product(range(k + 1), repeat=3) if e[0] + e[1] <= k]
    if fam == 'serendipity':
        # Superlinear degree at most k.
        return [e for e in itertools.product(range(k + 1), repeat=dim)
                if sum(i for i in e if i > 1) <= k]
    return list(itertools.product(range(k + 1), repeat=dim))


def cheb(x, es, ders=()):
    """Products of Chebyshev polynomials on [0, 1] (and a derivative) at points."""
    dim = x.shape[1]
    k = max(max(e) for e in es)
    tab = []
    for d in range(dim):
        n = sum(1 for i in ders if i == d)
        cols = []
        for j in range(k + 1):
            c = np.zeros(j + 1)
            c[j] = 1
            cols.append(C.chebval(2 * x[:, d] - 1, C.chebder(c, n) if n else c) * 2.0 ** n)
        tab.append(np.stack(cols, 1))
    return np.stack([np.prod([tab[d][:, e[d]] for d in range(dim)], axis=0) for e in es], 1)


def bary(g, rs, n):
    """Random points in the closed cell; a part of them on lower dimensional entities."""
    def simplex(m):
        b = rs.dirichlet(np.ones(m + 1), n)
        z = rs.rand(n, m + 1) < rs.choice([0, 0, 0.3, 0.6], n)[:, None]
        z[np.arange(n), rs.randint(0, m + 1, n)] = False
        b[z] = 0
        b /= b.sum(1)[:, None]
        return b[:, 1:]

    def cube(m):
        x = rs.rand(n, m)
        z = rs.rand(n, m) < rs.choice([0, 0, 0.3, 0.6], n)[:, None]
        x[z] = rs.choice([0.0, 0.0, 1.0, 1.0, 0.5], z.sum())
        return x
    dim = int(g[0])
    if g in SIMPLEX:
        x = simplex(dim)
    elif g == '3_6':
        x = np.c_[simplex(2), cube(1)]
    else:
        x = cube(dim)
    return np.ascontiguousarray(x)


def make(g, fam, k):
    ge = GeometryElement(g)
    if fam == 'bubble':
        return PolySpace.any_from_args(None, ge, k, force_bubble=True)
    return PolySpace.any_from_args(None, ge, k, basis=fam)


def run(case):
    g, fam, k = case['geo'], case['fam'], case['order']
    dim = int(g[0])
    rs = np.random.RandomState(case['seed'])
    ps = make(g, fam, k)
    es = space(g, fam, k)
    leg = fam == 'legendre'
    verts = np.asarray(gen.REF[g], dtype=float)
    check(np.array_equal(ps.geometry.coors, verts), 'reference cell')

    def ev(z, diff=0, **kw):
        b = np.asarray(ps.eval_basis(np.ascontiguousarray(z), diff=diff, **kw))
        shape = (len(z),) + ((1,) if diff == 0 else (dim,) * diff)
        if leg and diff:
            check(b.shape[0] == 1, 'shape %s', b.shape)
            b = b[0]
        check(b.shape[:-1] == shape, 'shape of the basis %s, %s points', b.shape, len(z))
        check(np.isfinite(b).all(), 'not finite values (derivative %d)', diff)
        return b

    # Identify the functions using points in the closed cell.
    y = np.r_[bary(g, rs, 6 * len(es) + 20), verts]
    B = ev(y)[:, 0]
    nb = B.shape[1]
    check(nb == ps.n_nod, 'number of functions')
    M = cheb(y, es)
    co, _, rk, _ = np.linalg.lstsq(M, B, rcond=None)
    sv = np.linalg.svd(M, compute_uv=False)
    if rk < len(es) or sv[0] / sv[-1] > 1e6:
        return {'nontrivial': False, 'classes': ['bad sample']}
    scale = max(1.0, np.abs(B).max())
    err = np.abs(M @ co - B).max()
    check(err <= 1e-9 * scale, 'functions are not in the declared space (%e)', err)
    n_dim = len(es)
    if fam == 'bubble':
        n_dim = len([e for e in es if sum(e) <= k]) + 1
    check(nb == n_dim, '%d functions for a space of dimension %d', nb, n_dim)
    s = np.linalg.svd(co, compute_uv=False)
    check(s[-1] > 1e-7 * s[0], 'functions are linearly dependent')
    if fam == 'bubble':
        # Contains polynomials of order k and a function zero on the boundary.
        low = [i for i, e in enumerate(es) if sum(e) <= k]
        sel = np.eye(len(es))[:, low]
        r = sel - co @ np.linalg.lstsq(co, sel, rcond=None)[0]
        check(np.abs(r).max() < 1e-9, 'does not contain polynomials of order %d', k)

    # Values and derivatives at other points.
    x = np.r_[bary(g, rs, case['n']), verts, verts.mean(0)[None]]
    if g == '3_6' and case['seed'] % 2:
        x[:, 2] = rs.choice([0, 0.3, 0.7, 1.0], len(x))
    amp = np.abs(co).sum(0).max()
    v0 = ev(x)
    close(v0[:, 0], cheb(x, es) @ co, 0, 1e-10 * amp, 'values')
    v1 = ev(x, 1)
    for d in range(dim):
        ref = cheb(x, es, (d,)) @ co
        close(v1[:, d], ref, 0, 2e-10 * amp * max(k, 2) ** 2, 'derivative %d' % d)
    if fam in ('lagrange', 'bubble') and g != '3_6':
        xh = x[rs.permutation(len(x))[:12 if nb < 60 else 3]]
        v2 = ev(xh, 2)
        for i in range(dim):
            for j in range(dim):
                ref = cheb(xh, es, (i, j)) @ co
                close(v2[:, i, j], ref, 0, 2e-9 * amp * max(k, 2) ** 4,
                      'second derivative %d %d' % (i, j))

    # Other ways of evaluation.
    pe = rs.permutation(len(x))
    close(ev(x[pe]), v0[pe], 1e-13, 1e-13 * scale, 'reordered points')
    one = int(rs.randint(len(x)))
    close(ev(x[one:one + 1]), v0[one:one + 1], 1e-13, 1e-13 * scale, 'single point')
    close(ev(x[one:one + 1], 1), v1[one:one + 1], 1e-13, 1e-12 * amp * max(k, 1),
          'single point derivative')
    sets = np.stack([x, x[pe], x[::-1]])
    for diff, v in ((0, v0), (1, v1)):
        m = ps.eval_basis(sets, diff=diff)
        close(m, np.stack([v, v[pe], v[::-1]]), 1e-13, 1e-12 * amp * max(k, 1),
              'several point sets')
    f = ps.eval_basis(x, diff=0, force_axis=True)
    check(f.shape == (1,) + v0.shape, 'force_axis: shape %s', f.shape)
    close(f[0], v0, 0, 0, 'force_axis')
    T = rs.uniform(-1, 1, (2, nb, nb))
    for diff, v in ((0, v0), (1, v1)):
        tr = ps.eval_basis(x, diff=diff, transform=T)
        close(tr, np.einsum('cij,qdj->cqdi', T, v), 0, 1e-11 * max(1, np.abs(v).max()) * nb,
              'transformed basis')

    # Nodal property.
    if (fam in ('lagrange', 'serendipity', 'sem')) or (fam == 'bubble' and k == 1):
        nc = np.ascontiguousarray(ps.node_coors, dtype=float)
        check(nc.shape == (nb, dim), 'node coordinates: shape %s', nc.shape)
        close(ev(nc)[:, 0], np.eye(nb), 0, 1e-11, 'values at nodes')
        if k >= 1 and (g != '3_6' or k == 1):
            close(nc[:len(verts)], verts, 0, 1e-14, 'vertex nodes')
    if fam == 'lobatto':
        vv = ev(verts)[:, 0]
        close(vv[:, :len(verts)], np.eye(len(verts)), 0, 1e-12, 'vertex functions')
        close(vv[:, len(verts):], 0, 0, 1e-12, 'higher order functions at vertices')
    if fam in ('lagrange', 'bubble', 'serendipity', 'bernstein', 'sem'):
        close(v0.sum(-1), 1, 0, 1e-11, 'sum of functions')
        close(v1.sum(-1), 0, 0, 1e-9 * amp, 'sum of derivatives')
    if fam == 'bernstein':
        check(v0.min() >= -1e-13 and v0.max() <= 1 + 1e-12, 'Bernstein functions in [0, 1]')
    if fam == 'sem':
        nw = np.asarray(ps.node_weights)
        es2 = list(itertools.product(range(2 * k), repeat=dim))
        es2 = [es2[i] for i in rs.permutation(len(es2))[:40]]
        ex = [np.prod([1.0 / (a + 1) for a in e]) for e in es2]
        val = [(nw * np.prod(nc ** np.array(e), axis=1)).sum() for e in es2]
        close(np.array(val), np.array(ex), 1e-11, 1e-14, 'quadrature in the nodes')
    if leg:
        qx, qw = gen.ref_quad(g, 2 * k + 1)
        q0 = ev(qx)[:, 0]
        mass = np.einsum('q,qi,qj->ij', qw, q0, q0)
        off = mass - np.diag(np.diag(mass))
        check(np.abs(off).max() <= 1e-10 * max(1, np.abs(mass).max()), 'not orthogonal (%e)',
              np.abs(off).max())
        check(np.diag(mass).min() > 0, 'norms')
        close(q0[:, 0], q0[0, 0], 1e-13, 0, 'the first function is constant')
        check(np.abs(q0[0, 0]) > 1e-3, 'the first function is zero')
        if g == '1_2':
            for n in range(k + 1):
                close(ps.get_nth_fun(n)(x[:, 0]), v0[:, 0, n], 1e-10, 1e-10, 'get_nth_fun()')
                close(ps.get_nth_fun_der(n)(x[:, 0]), v1[:, 0, n], 1e-9, 1e-9,
                      'get_nth_fun_der()')
    elif k >= 1 and g != '3_6':
        # A function is zero on the entities that do not contain its own one.
        ents = [gen.EDGES[g], gen.FACES.get(g, [])] if dim == 3 else [gen.EDGES.get(g, [])]
        if dim == 1:
            ents = [[]]
        nts = np.asarray(ps.nts)
        check(nts.shape == (nb, 2), 'node types')
        vsets = []
        for kind, ie in nts:
            if kind == 0:
                vsets.append({int(ie)})
            elif kind == 1 and dim > 1:
                vsets.append(set(int(i) for i in ps.geometry.edges[ie]))
            elif kind == 2 and dim > 2:
                vsets.append(set(int(i) for i in ps.geometry.faces[ie]))
            else:
                vsets.append(set(range(len(verts))))
        for v in range(len(verts)):
            val = ev(verts[v:v + 1])[0, 0]
            for i in range(nb):
                if v not in vsets[i]:
                    check(abs(val[i]) < 1e-10, 'function %d at vertex %d: %e', i, v, val[i])
        for conn in itertools.chain(*ents):
            w = rs.dirichlet(np.ones(len(conn)), 6)
            val = ev(w @ verts[list(conn)])[:, 0]
            for i in range(nb):
                if not vsets[i] <= set(int(c) for c in conn):
                    check(np.abs(val[:, i]).max() < 1e-10 * scale,
                          'function %d of entity %s on entity %s: %e', i, sorted(vsets[i]),
                          list(conn), np.abs(val[:, i]).max())
    return {'nontrivial': k >= 1, 'classes': ['%s-%s-%d' % (g, fam, k)]}


@st.composite
def strat(draw, item):
    g, fam = item.split(':')
    lo, hi = orders(g, fam)
    return dict(geo=g, fam=fam, order=draw(st.integers(lo, hi)), n=draw(st.integers(1, 40)),
                seed=draw(st.integers(0, 10 ** 6)))


ITEMS = ['%s:%s' % (g, f) for g in sorted(FAMS) for f in FAMS[g]]


def examples():
    out = []
    for it in ITEMS:
        g, fam = it.split(':')
        lo, hi = orders(g, fam)
        out += [dict(geo=g, fam=fam, order=k, n=60, seed=k + 1) for k in range(lo, hi + 1)]
    return out


SUBS = [Sub('basis', strat, run, n=25, items=ITEMS, examples=examples())]
