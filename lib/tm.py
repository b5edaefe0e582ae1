"""Independent evaluation of weak forms: pointwise integrands over own mappings.

A term specification has argument slots
  ('m', shape), ('.', shape), ('om', shape)  materials (regular, special, optional)
  ('v', shape), ('s', shape), ('p', shape)   virtual, state, parameter variables
with shapes built from ints, 'D' (space dimension), 'S' (symmetric storage size).  The integrand gets
slot objects: materials are arrays (..., r, c), variables have .val (..., nc) and
.grad (..., dim, nc) [grad[d, c] = d u_c / d x_d].  All have leading axes (C, Q, Nv, Nu).
"""
import numpy as np

import gen
from fe import fun_region, facet_region, pick
from f01 import bases, make_field
from g01 import facet_frame, facet_vertices, invert_any, own_boundary

SYM = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
       3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}


def resolve(sh, dim):
    env = {'D': dim, 'S': dim * (dim + 1) // 2, 'D2': dim ** 2,
           'SD': dim * dim * (dim + 1) // 2}
    if isinstance(sh, (tuple, list)):
        return tuple(resolve(s, dim) for s in sh)
    return env.get(sh, sh)


class Slot:
    def __init__(self, val, grad):
        self.val, self.grad = val, grad

    @property
    def div(self):
        return np.trace(self.grad, axis1=-2, axis2=-1)

    @property
    def strain(self):
        """Vector storage, engineering shears."""
        g = self.grad
        return np.stack([g[..., i, i] if i == j else g[..., i, j] + g[..., j, i]
                         for i, j in SYM[g.shape[-1]]], -1)

    @property
    def s(self):
        return self.val[..., 0]

    @property
    def ds(self):
        return self.grad[..., 0]


class Geo:
    """Quadrature data of a region: own mapping."""

    def __init__(self, g, conn, coors, cells, xi, w, normal=None, xi_cell=True):
        self.g, self.cells = g, np.asarray(cells)
        x = coors[conn[self.cells]]
        C = len(self.cells)
        self.xi = xi if xi.ndim == 3 else np.broadcast_to(xi, (C,) + xi.shape)
        Q = self.xi.shape[1]
        bf, bg = gen.ref_shape(g, self.xi.reshape(C * Q, -1))
        bf = bf.reshape(C, Q, -1)
        bg = bg.reshape(C, Q, bf.shape[2], -1)
        self.x = np.einsum('cqv,cvi->cqi', bf, x)
        self.J = np.einsum('cvi,cqvj->cqij', x, bg)
        self.Ji = np.linalg.inv(self.J)
        self.w = np.linalg.det(self.J) * w if normal is None else w
        self.n = normal
        self.bg = bg

    def basis(self, field, fcells):
        """(C, Q, N), (C, Q, dim, N) of the field basis in physical coordinates."""
        C, Q = self.xi.shape[:2]
        pos = np.searchsorted(fcells, self.cells)
        flat = self.xi.reshape(C * Q, -1)
        _, first, inv = np.unique(flat.round(13), axis=0, return_index=True,
                                  return_inverse=True)
        uni, inv = flat[first], inv.reshape(C, Q)
        b = bases(field, np.ascontiguousarray(uni))[:, :, 0]
        d = bases(field, np.ascontiguousarray(uni), True)
        if b.shape[0] == 1:
            bf, bg = b[0][inv], d[0][inv]
        else:
            bf, bg = b[pos[:, None], inv], d[pos[:, None], inv]
        return bf, np.einsum('cqji,cqjn->cqin', self.Ji, bg)


def cell_geo(g, conn, coors, cells, integral):
    qp, w = integral.get_qp(g)
    return Geo(g, conn, coors, cells, np.asarray(qp), np.asarray(w))


def facet_geo(field, reg, g, conn, coors, integral):
    """Facet quadrature data; points are those used by the library."""
    from sfepy.discrete.common.mappings import get_physical_qps
    fi = np.asarray(reg.get_facet_indices())
    pq = get_physical_qps(reg, integral)
    pts = np.asarray(pq.values).reshape(pq.shape)
    cf = facet_vertices(field, g)
    nf = {len(f) for f in cf}
    assert len(nf) == 1
    nv = nf.pop()
    if nv == 1:
        w = np.ones(1)
    else:
        w = np.asarray(integral.get_qp({2: '1_2', 3: '2_3', 4: '2_4'}[nv])[1])
    xis, nrm, ws = [], [], []
    for i, (c, lf) in enumerate(fi):
        xc = coors[conn[c]]
        if nv == 1:
            xi = gen.REF[g][list(cf[lf])]
        else:
            xi, _ = invert_any(g, xc, pts[i])
            xi = np.clip(xi, 0, 1)
            if g in ('2_3', '3_4'):
                xi = xi / np.maximum(1, xi.sum(1) * (1 + 4e-16))[:, None]
        a, n = facet_frame(g, cf[lf], xc, xi)
        xis.append(xi)
        nrm.append(n)
        ws.append(w * a)
    return Geo(g, conn, coors, fi[:, 0], np.array(xis), np.array(ws), np.array(nrm))


def slot_state(geo, field, fcells, region, dofs, nc):
    """Values of a function given by DOFs: leading axes (C, Q, 1, 1)."""
    bf, bg = geo.basis(field, fcells)
    econn = field.get_econn('cell', field.region)[np.searchsorted(fcells, geo.cells)]
    u = dofs.reshape(-1, nc)[econn]
    return Slot(np.einsum('cqn,cnk->cqk', bf, u)[:, :, None, None],
                np.einsum('cqdn,cnk->cqdk', bg, u)[:, :, None, None])


def slot_basis(geo, field, fcells, nc, virtual):
    """All basis functions: axes (C, Q, N, 1, ...) or (C, Q, 1, N, ...); and DOFs (C, N)."""
    bf, bg = geo.basis(field, fcells)
    C, Q, N = bf.shape
    dim = bg.shape[2]
    val = np.zeros((C, Q, N, nc, nc))
    grad = np.zeros((C, Q, N, nc, dim, nc))
    for k in range(nc):
        val[:, :, :, k, k] = bf
        grad[:, :, :, k, :, k] = np.moveaxis(bg, 2, 3)
    val = val.reshape(C, Q, N * nc, nc)
    grad = grad.reshape(C, Q, N * nc, dim, nc)
    econn = field.get_econn('cell', field.region)[np.searchsorted(fcells, geo.cells)]
    idx = (econn[:, :, None] * nc + np.arange(nc)).reshape(C, -1)
    ax = 3 if virtual else 2
    return Slot(np.expand_dims(val, ax), np.expand_dims(grad, ax)), idx


def integrate(f, geo):
    """(C, Nv, Nu) element contributions of the integrand values (C, Q, Nv, Nu)."""
    f = np.broadcast_to(f, np.broadcast_shapes(f.shape, geo.w.shape + (1, 1)))
    return np.einsum('cqvu,cq->cvu', f, geo.w)
