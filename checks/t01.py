"""T01: terms evaluate the documented integrals."""
import numpy as np
import hypothesis.strategies as st

import gen
import tm
from tm import SYM, Slot
from fe import fun_region, facet_region, pick
from harness import Sub, check, close
from f01 import make_field
from g01 import own_boundary, facet_vertices

from sfepy.discrete import (FieldVariable, Integral, Integrals, Material, Materials, Variables)
from sfepy.discrete.functions import Function
from sfepy.discrete.evaluate import create_evaluable, eval_equations

PROP = 'T01'
RULE = ('Cases: term x evaluation mode x random mesh (all cell kinds, affine or not) x region '
        '(subdomain, boundary part) x field orders and bases x random DOF vectors x constant or '
        'variable material x sign.  Oracle: the documented integrand evaluated pointwise over '
        'an own mapping.  Non-trivial: non-zero reference with more than one cell or facet.')
ASSUMPTIONS = ['wedges are not supported by the terms (their declared geometries)']

E = np.einsum
dot = lambda a, b: (a * b).sum(-1)
ddot = lambda a, b: (a * b).sum((-1, -2))


def mv(m, v):
    return E('...ij,...j->...i', m, v)


def full(sv):
    """Symmetric storage (..., S) -> (..., D, D)."""
    dim = {1: 1, 3: 2, 6: 3}[sv.shape[-1]]
    out = np.zeros(sv.shape[:-1] + (dim, dim))
    for k, (i, j) in enumerate(SYM[dim]):
        out[..., i, j] = sv[..., k]
        out[..., j, i] = sv[..., k]
    return out


def sig(m):
    """Stress-like material (S, 1) or (D, D) -> (..., D, D)."""
    return full(m[..., 0]) if m.shape[-1] == 1 else m


def conv(w, u):
    """((w . grad) u)_c for w (..., dim), grad (..., dim, nc)."""
    return E('...d,...dc->...c', w, u.grad)


def iso(lam, mu, dim):
    S = len(SYM[dim])
    out = np.zeros(np.broadcast_shapes(lam.shape, mu.shape)[:-2] + (S, S))
    for k in range(S):
        if k < dim:
            for l in range(dim):
                out[..., k, l] += lam[..., 0, 0]
            out[..., k, k] += 2 * mu[..., 0, 0]
        else:
            out[..., k, k] += mu[..., 0, 0]
    return out


def wave_strain(u, kappa):
    dim = len(kappa)
    g = 0.5 * (u[..., :, None] * kappa + kappa[:, None] * u[..., None, :])
    return np.stack([g[..., i, j] * (1 if i == j else 2) for i, j in SYM[dim]], -1)


def strain_like_dd(dd):
    """Fibre d d^T in the vector storage conjugate to stress (engineering shears)."""
    dim = dd.shape[-1]
    return np.stack([dd[..., i, j] * (1 if i == j else 2) for i, j in SYM[dim]], -1)


TERMS = {}


def T(name, args, fun, kinds='c', mode='weak', dims=(1, 2, 3), key=None, nl=False):
    """kinds: c cell, f facet, e facet_extra."""
    a = [tuple(x.split(':', 1)) for x in args.split()]
    slots = []
    for k, sh in a:
        sh = sh.split(',')
        sh = tuple(int(s) if s.isdigit() else s for s in sh)
        slots.append((k, sh))
    key = key or name
    while key in TERMS:
        key += "'"
    TERMS[key] = dict(name=name, slots=slots, fun=fun, kinds=kinds, mode=mode, dims=dims, nl=nl)


# fun(geo, *slots)
for kk in ('weak', 'eval'):
    v, s = ('v', 's') if kk == 'weak' else ('p', 'p')
    D = dict(mode=kk)
    for c in ('om:1,1', ''):
        T('dw_dot', '%s %s:1 %s:1' % (c, v, s),
          lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * a[-2].s * a[-1].s,
          'cf', key='dw_dot-s', **D)
        T('dw_dot', '%s %s:D %s:D' % (c, v, s),
          lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * dot(a[-2].val, a[-1].val),
          'cf', key='dw_dot-v', **D)
        T('dw_laplace', '%s %s:1 %s:1' % (c, v, s),
          lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * dot(a[-2].ds, a[-1].ds), **D)
        T('dw_st_pspg_p', '%s %s:1 %s:1' % (c, v, s),
          lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * dot(a[-2].ds, a[-1].ds), **D)
        T('dw_div_grad', '%s %s:D %s:D' % (c, v, s),
          lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * ddot(a[-2].grad, a[-1].grad),
          **D)
    T('dw_dot', 'om:D,D %s:D %s:D' % (v, s), lambda g, c, v, u: dot(v.val, mv(c, u.val)), 'cf',
      key='dw_dot-m', **D)
    T('dw_diffusion', 'm:D,D %s:1 %s:1' % (v, s), lambda g, K, q, p: dot(q.ds, mv(K, p.ds)), **D)
    T('dw_lin_elastic', 'm:S,S %s:D %s:D' % (v, s),
      lambda g, d, v, u: dot(v.strain, mv(d, u.strain)), **D)
    T('dw_lin_elastic_iso', 'm:1,1 m:1,1 %s:D %s:D' % (v, s),
      lambda g, l, m, v, u: dot(v.strain, mv(iso(l, m, v.val.shape[-1]), u.strain)),
      dims=(2, 3), **D)
    T('dw_nonsym_elastic', 'm:D2,D2 %s:D %s:D' % (v, s),
      lambda g, d, v, u: dot(np.swapaxes(v.grad, -1, -2).reshape(v.grad.shape[:-2] + (-1,)),
                             mv(d, np.swapaxes(u.grad, -1, -2).reshape(u.grad.shape[:-2] + (-1,)))),
      dims=(2, 3), **D)
    # Two-mode coupling terms.
    if kk == 'weak':
        pairs = [('v', 's', 0), ('s', 'v', 1)]
    else:
        pairs = [('p', 'p', 0)]
    for a1, a2, sw in pairs:
        for c in ('om:1,1', 'om:D,D', ''):
            T('dw_v_dot_grad_s', '%s %s:%s %s:%s' % (c, a1, 'D', a2, '1'),
              lambda g, *a: dot(a[-2].val, (mv(a[0], a[-1].ds) if a[0].shape[-1] > 1 or
                                            a[-2].val.shape[-1] == 1 else
                                            a[0][..., 0] * a[-1].ds)
                                if len(a) == 3 else a[-1].ds), **D)
        T('dw_vm_dot_s', 'm:D,1 %s:D %s:1' % (a1, a2),
          lambda g, c, v, p: dot(v.val, c[..., 0]) * p.s, **D)
        for c in ('om:1,1', ''):
            T('dw_stokes', '%s %s:D %s:1' % (c, a1, a2),
              lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * a[-1].s * a[-2].div, **D)
        T('dw_biot', 'm:S,1 %s:D %s:1' % (a1, a2),
          lambda g, al, v, p: p.s * dot(v.strain, al[..., 0]), **D)
        T('dw_biot', 'm:D,D %s:D %s:1' % (a1, a2),
          lambda g, al, v, p: p.s * ddot(np.swapaxes(v.grad, -1, -2), al), key='dw_biot-m',
          dims=(2, 3), **D)
        T('dw_piezo_coupling', 'm:D,S %s:D %s:1' % (a1, a2),
          lambda g, c, v, p: dot(p.ds, mv(c, v.strain)), **D)
    T('dw_diffusion_coupling', 'm:D,1 %s:1 %s:1' % (v, s),
      lambda g, K, q, p: (p.s * dot(K[..., 0], q.ds)), **D)

T('dw_diffusion_coupling', 'm:D,1 s:1 v:1', lambda g, K, p, q: q.s * dot(K[..., 0], p.ds),
  key='dw_diffusion_coupling-1')
T('dw_s_dot_mgrad_s', 'm:D,1 v:1 s:1', lambda g, y, q, p: q.s * dot(y[..., 0], p.ds))
T('dw_s_dot_mgrad_s', 'm:D,1 s:1 v:1', lambda g, y, p, q: p.s * dot(y[..., 0], q.ds))
T('dw_advect_div_free', 'm:D,1 v:1 s:1', lambda g, y, q, p: q.s * dot(y[..., 0], p.ds))
T('dw_s_dot_grad_i_s', '.:i v:1 s:1', lambda g, i, q, p: q.s * p.ds[..., int(i[0, 0])])
T('dw_bc_newton', 'm:1,1 m:1,1 v:1 s:1',
  lambda g, al, po, q, p: al[..., 0, 0] * q.s * (p.s - po[..., 0, 0]), 'f')
for c in ('om:1,1', ''):
    T('dw_integrate', c + ' v:1', lambda g, *a: (a[0][..., 0, 0] if len(a) == 2 else 1) * a[-1].s,
      'cf')
    T('dw_div', c + ' v:D', lambda g, *a: (a[0][..., 0, 0] if len(a) == 2 else 1) * a[-1].div)
    T('dw_jump', c + ' v:1 s:1 s:1',
      lambda g, *a: (a[0][..., 0, 0] if len(a) == 4 else 1) * a[-3].s * (a[-2].s - a[-1].s), 'f')
    T('dw_dot', c + ' v:D s:1',
      lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * dot(a[-2].val, g.nn) * a[-1].s, 'f',
      key='dw_dot-vn', dims=(2, 3))
    T('dw_dot', c + ' v:1 s:D',
      lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * dot(a[-1].val, g.nn) * a[-2].s, 'f',
      key='dw_dot-nv', dims=(2, 3))
T('dw_diffusion_r', 'm:D,1 v:1', lambda g, K, q: dot(K[..., 0], q.ds))
T('dw_volume_lvf', 'm:D,1 v:D', lambda g, f, v: dot(f[..., 0], v.val))
T('dw_volume_lvf', 'm:1,1 v:1', lambda g, f, q: f[..., 0, 0] * q.s)
T('dw_lin_strain_fib', 'm:S,S m:D,1 v:D',
  lambda g, C, d, v: dot(v.strain, mv(C, strain_like_dd(d * np.swapaxes(d, -1, -2)))))
T('dw_elastic_wave', 'sm:S,S .:D v:D s:D',
  lambda g, C, k, v, u: dot(wave_strain(v.val, k), mv(C, wave_strain(u.val, k))), dims=(2, 3))
T('dw_elastic_wave_cauchy', 'sm:S,S .:D v:D s:D',
  lambda g, C, k, v, u: dot(wave_strain(v.val, k), mv(C, u.strain)), dims=(2, 3))
T('dw_elastic_wave_cauchy', 'sm:S,S .:D s:D v:D',
  lambda g, C, k, u, v: dot(wave_strain(u.val, k), mv(C, v.strain)), dims=(2, 3))
T('dw_stokes_wave', '.:D v:D s:D', lambda g, k, v, u: (v.val @ k) * (u.val @ k), dims=(2, 3))
T('dw_stokes_wave_div', '.:D v:D s:D', lambda g, k, v, u: (v.val @ k) * u.div, dims=(2, 3))
T('dw_stokes_wave_div', '.:D s:D v:D', lambda g, k, u, v: (u.val @ k) * v.div, dims=(2, 3))
T('dw_convect', 'v:D s:D', lambda g, v, u: dot(conv(u.val, u), v.val), nl=True)
T('dw_convect_v_grad_s', 'v:1 s:D s:1', lambda g, q, u, p: q.s * dot(u.val, p.ds))
T('dw_lin_convect', 'v:D p:D s:D', lambda g, v, w, u: dot(conv(w.val, u), v.val))
T('dw_lin_convect2', 'm:D,1 v:D s:D', lambda g, c, v, u: dot(conv(c[..., 0], u), v.val))
T('dw_st_grad_div', 'm:1,1 v:D s:D', lambda g, c, v, u: c[..., 0, 0] * u.div * v.div)
T('dw_st_pspg_c', 'm:1,1 v:1 p:D s:D', lambda g, t, q, b, u: t[..., 0, 0] * dot(conv(b.val, u),
                                                                              q.ds))
T('dw_st_supg_c', 'm:1,1 v:D p:D s:D',
  lambda g, t, v, b, u: t[..., 0, 0] * dot(conv(b.val, u), conv(b.val, v)))
T('dw_st_supg_p', 'm:1,1 v:D p:D s:1', lambda g, t, v, b, p: t[..., 0, 0] * dot(p.ds,
                                                                              conv(b.val, v)))
T('dw_electric_source', 'm:1,1 v:1 p:1', lambda g, c, s, f: c[..., 0, 0] * s.s * dot(f.ds, f.ds))
NF = lambda p: 1 + p * p + 0.3 * p
DNF = lambda p: 2 * p + 0.3
T('dw_nl_diffusion', 'F:f F:d v:1 s:1', lambda g, f, d, q, p: dot(q.ds, p.ds) * NF(p.s), nl=True)
T('dw_volume_nvf', 'F:f F:d v:1 s:1', lambda g, f, d, q, p: q.s * NF(p.s), nl=True)
T('dw_surface_flux', 'om:D,D v:1 s:1',
  lambda g, K, q, p: q.s * dot(g.nn, mv(K, p.ds)), 'e', dims=(2, 3))
T('dw_surface_flux', 'v:1 s:1', lambda g, q, p: q.s * dot(g.nn, p.ds), 'e', dims=(2, 3))
for kk, v in (('weak', 'v'), ('eval', 'p')):
    D = dict(mode=kk)
    T('dw_lin_prestress', 'm:S,1 %s:D' % v, lambda g, s, v: dot(s[..., 0], v.strain), **D)
    T('dw_lin_prestress', 'm:D,D %s:D' % v,
      lambda g, s, v: ddot(s, np.swapaxes(v.grad, -1, -2)), dims=(2, 3), **D)
    T('dw_surface_ndot', 'm:D,1 %s:1' % v, lambda g, c, q: q.s * dot(c[..., 0], g.nn), 'f', **D)
    T('dw_surface_ltr', 'om:S,1 %s:D' % v, lambda g, s, v: dot(v.val, mv(sig(s), g.nn)), 'f',
      dims=(2, 3), **D)
    T('dw_surface_ltr', 'om:D,1 %s:D' % v, lambda g, f, v: dot(v.val, f[..., 0]), 'f',
      dims=(2, 3), **D)
    T('dw_surface_ltr', 'om:1,1 %s:D' % v,
      lambda g, p, v: p[..., 0, 0] * dot(v.val, g.nn), 'f', dims=(2, 3), **D)
    T('dw_surface_ltr', '%s:D' % v, lambda g, v: dot(v.val, g.nn), 'f', **D)
    T('dw_surface_ltr', 'sm:D,D %s:D' % v, lambda g, s, v: dot(v.val, mv(s, g.nn)), 'f',
      dims=(2, 3), **D)

# Evaluation terms: the integrand has trailing (r, c).
col = lambda a: a[..., None]
sc = lambda a: a[..., None, None]
for c in ('om:1,1', ''):
    cc = lambda a: a[0][..., 0, 0] if len(a) == 2 else 1.0
    T('ev_integrate', c + ' p:1', lambda g, *a: sc(cc(a) * a[-1].s), 'cf', mode='ev')
    T('ev_integrate', c + ' p:D', lambda g, *a: col(np.asarray(cc(a))[..., None] * a[-1].val),
      'cf', mode='ev')
    T('ev_integrate', c + ' p:D', lambda g, *a: sc(cc(a) * dot(a[-1].val, g.nn)), 'f',
      mode='flux', dims=(2, 3))
    T('ev_grad', c + ' p:1', lambda g, *a: np.asarray(cc(a))[..., None, None] * a[-1].grad, 'ce',
      mode='ev')
    T('ev_grad', c + ' p:D', lambda g, *a: np.asarray(cc(a))[..., None, None] * a[-1].grad, 'ce',
      mode='ev')
    T('ev_div', c + ' p:D', lambda g, *a: sc(cc(a) * a[-1].div), 'ce', mode='ev')
T('ev_integrate_mat', 'm:D,D p:1', lambda g, m, p: m + 0 * sc(p.s), 'cf', mode='ev')
T('ev_integrate_mat', 'm:1,1 p:D', lambda g, m, p: m + 0 * sc(p.div), 'cf', mode='ev')
T('ev_integrate_mat', 'm:3,2 p:1', lambda g, m, p: m + 0 * sc(p.s), 'cf', mode='ev')
T('ev_volume', 'p:1', lambda g, p: sc(1 + 0 * p.s), 'cf', mode='evt')
T('ev_volume_surface', 'p:1', lambda g, p: sc(dot(g.xx, g.nn) / g.xx.shape[-1]), 'f', mode='evt',
  dims=(2, 3))
T('ev_surface_moment', '.:D p:1',
  lambda g, x0, p: g.nn[..., :, None] * (g.xx - x0)[..., None, :], 'f', mode='evt', dims=(2, 3))
T('ev_diffusion_velocity', 'm:D,D p:1', lambda g, K, p: -col(mv(K, p.ds)), 'ce', mode='ev')
T('ev_surface_flux', 'm:D,D p:1', lambda g, K, p: sc(dot(g.nn, mv(K, p.ds))), 'e', mode='evs',
  dims=(2, 3))
T('ev_cauchy_strain', 'p:D', lambda g, u: col(u.strain), 'ce', mode='ev')
T('ev_cauchy_stress', 'm:S,S p:D', lambda g, C, u: col(mv(C, u.strain)), 'ce', mode='ev')
T('ev_biot_stress', 'm:S,1 p:1', lambda g, al, p: -al * sc(p.s), 'c', mode='ev')
T('ev_piezo_stress', 'm:D,S p:1', lambda g, c, p: col(E('...ks,...k->...s', c, p.ds)), 'c',
  mode='ev')
T('ev_piezo_strain', 'm:D,S p:D', lambda g, c, u: col(mv(c, u.strain)), 'c', mode='ev')


# Adjoint terms.
T('dw_adj_div_grad', 'm:1,1 m:1,1 v:D p:D',
  lambda g, w, nu, v, u: w[..., 0, 0] * nu[..., 0, 0] * ddot(v.grad, u.grad))
T('dw_adj_convect1', 'v:D s:D p:D', lambda g, v, w, u: dot(conv(v.val, u), w.val))
T('dw_adj_convect2', 'v:D s:D p:D', lambda g, v, w, u: dot(conv(u.val, v), w.val))
T('dw_st_adj_supg_c', 'cm:1,1 v:D p:D s:D',
  lambda g, d, v, u, w: d[..., 0, 0] * (dot(conv(v.val, u), conv(u.val, w))
                                        + dot(conv(u.val, u), conv(v.val, w))))
T('dw_st_adj1_supg_p', 'cm:1,1 v:D s:D p:1',
  lambda g, d, v, w, p: d[..., 0, 0] * dot(p.ds, conv(v.val, w)))
T('dw_st_adj2_supg_p', 'cm:1,1 v:D p:D s:1',
  lambda g, d, v, u, r: d[..., 0, 0] * dot(r.ds, conv(v.val, u)))
# Constraints.
for c in ('om:1,1', ''):
    T('dw_non_penetration', c + ' v:D s:1',
      lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * a[-1].s * dot(g.nn, a[-2].val), 'f',
      dims=(2, 3))
    T('dw_non_penetration', c + ' s:D v:1',
      lambda g, *a: (a[0][..., 0, 0] if len(a) == 3 else 1) * a[-1].s * dot(g.nn, a[-2].val), 'f',
      dims=(2, 3))
T('dw_non_penetration_p', 'm:1,1 v:D s:D',
  lambda g, c, v, u: c[..., 0, 0] * dot(g.nn, v.val) * dot(g.nn, u.val), 'f', dims=(2, 3))

KEYS = sorted(TERMS)


def mat_fun(rs, shape, variable, dim):
    """Material definition: (coors (n, dim)) -> (n,) + shape."""
    a = rs.uniform(-1, 1, shape)
    b = rs.uniform(-1, 1, shape + (dim,)) if variable else np.zeros(shape + (dim,))
    c = rs.uniform(-1, 1, shape) if variable else np.zeros(shape)

    def f(x):
        return a + np.einsum('rcd,nd->nrc', b, x) + c * np.sin(x.sum(1))[:, None, None]
    return f, a


class Ctx:
    """Mesh, regions, fields of a case."""

    def __init__(self, case, kinds='c', parent_sub=True):
        self.case = case
        self.rs = np.random.RandomState(case['seed'])
        self.dom, r = gen.domain(case['mesh'])
        self.g = g = r['descs'][0]
        self.dim = dim = int(g[0])
        n = len(r['conns'][0])
        self.coors = r['coors']
        self.conn = np.asarray(self.dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
        self.omega = self.dom.create_region('Omega', 'all')
        m = pick(case['seed'], n, 0.7) if case['sub'] else np.ones(n, bool)
        self.sub = fun_region(self.dom, 'Sub', m)
        self.cells = np.where(m)[0]
        self.freg, self.fcells = self.omega, np.arange(n)
        if case.get('fsub'):
            self.freg, self.fcells = self.sub, self.cells
        self.region = self.sub
        self.integral = Integral('i', order=case['iorder'])
        if kinds != 'c':
            bnd = own_boundary(self.dom, g, self.conn, m)
            sel = []
            if dim > 1:
                k = self.dom.cmesh.get_conn(dim - 1, 0)
                off, ind = np.asarray(k.offsets), np.asarray(k.indices)
                keys = [frozenset(ind[off[i]:off[i + 1]].astype(int).tolist())
                        for i in range(len(off) - 1)]
            else:
                keys = [frozenset([i]) for i in range(len(self.coors))]
            on = [i for i, k in enumerate(keys) if k in bnd]
            pm = pick(case['seed'] + 3, len(on), 0.5) if case['part'] else np.ones(len(on), bool)
            sel = [on[i] for i in np.where(pm)[0]]
            self.region = facet_region(self.dom, 'Gamma', sel, parent='Sub')
        self.fields = {}
        self.dtype = np.complex128 if case.get('cplx') else np.float64

    def field(self, name, nc, order=None):
        order = order or int(self.rs.randint(1, self.case['order'] + 1))
        fam = self.case['fam']
        if (fam == 'serendipity' and self.g not in ('2_4', '3_8')) or \
                (fam == 'lobatto' and self.g not in ('1_2', '2_4', '3_8')):
            fam = 'lagrange'
        if self.g == '3_8' and order > 2:
            order = 2
        f = make_field(name, nc, self.freg, order, fam, self.dtype)
        self.fields[name] = f
        return f


CONST = ('cm', 'cP', 'nu')


def build(ctx, spec, var_mat, coef):
    """Variables, materials, and the expression of a term."""
    dim, rs = ctx.dim, ctx.rs
    slots, names, mats, variables, data = [], [], [], [], []
    ivirt = [i for i, (k, _) in enumerate(spec['slots']) if k == 'v']
    states = [i for i, (k, _) in enumerate(spec['slots']) if k == 's']
    shp = lambda sh: tuple(tm.resolve(s, dim) for s in sh)
    for i, (k, sh) in enumerate(spec['slots']):
        if k in ('m', 'om', 'sm', 'cm', 'P', 'dir', 'cP', 'nu'):
            s = shp(sh)
            fun, a = mat_fun(rs, s, var_mat and k not in CONST, dim)
            if k in ('P', 'dir', 'cP', 'nu'):
                # Positive values, unit vectors.
                pos = ((lambda x: 1 + 0.7 * np.tanh(x)) if k in ('P', 'cP') else
                       (lambda x: 0.25 + 0.2 * np.tanh(x)) if k == 'nu' else
                       (lambda x: (x + 3) / np.linalg.norm(x + 3, axis=-2, keepdims=True)))
                fun, a = (lambda f, pos: lambda x: pos(f(x)))(fun, pos), pos(a)
            if k == 'sm':
                a = a + a.T
                fun = (lambda f: lambda x: f(x) + np.swapaxes(f(x), 1, 2))(fun)
            mname = 'm%d' % i
            if k in CONST:
                mats.append(Material(mname, values={'val': a}))
            elif var_mat:
                def get(ts, coors, mode=None, fun=fun, mname=mname, **kw):
                    if mode == 'qp':
                        return {'val': fun(coors)}
                mats.append(Material(mname, function=Function('f' + mname, get)))
            else:
                mats.append(Material(mname, values={'val': a}))
            names.append(mname + '.val')
            slots.append(('m', fun))
        elif k == '.':
            if sh[0] == 'n':
                val = float(rs.uniform(5, 50))
            else:
                val = np.array([[rs.randint(dim)]]) if sh[0] == 'i' else rs.uniform(-1, 1, shp(sh))
            mats.append(Material('m%d' % i, values={'.val': val}))
            names.append('m%d.val' % i)
            slots.append(('.', val))
        elif k == 'F':
            slots.append(('F', None))
            names.append('fun' if sh[0] == 'f' else 'dfun')
        elif k in ('s', 'p'):
            nc = shp(sh)[0]
            if spec['name'] == 'dw_jump' and ctx.fields:
                f = list(ctx.fields.values())[0]
            else:
                f = ctx.field('f%d' % i, nc)
            if k == 's':
                var = FieldVariable('u%d' % i, 'unknown', f)
            else:
                var = FieldVariable('u%d' % i, 'parameter', f, primary_var_name='(set-to-None)')
            d = rs.uniform(-1, 1, f.n_nod * nc) * spec.get('amp', 1)
            if ctx.dtype is np.complex128:
                d = d + 1j * rs.uniform(-1, 1, len(d))
            var.set_data(d.copy())
            variables.append(var)
            names.append(var.name)
            slots.append((k, (f, nc, d, var)))
        else:
            names.append(None)
            slots.append(None)
    if ivirt:
        iv = ivirt[0]
        nc = shp(spec['slots'][iv][1])[0]
        prim = [i for i in states if slots[i][1][1] == nc]
        extra = ''
        same = [i for i in prim if True]
        if same and not (ctx.case['mixed'] and spec['name'] == 'dw_dot'):
            f, _, _, pv = slots[same[-1]][1]
        else:
            if spec['name'] == 'dw_jump':
                f = slots[states[0]][1][0]
            elif spec['name'] == 'dw_st_adj2_supg_p':
                f = slots[2][1][0]
            else:
                f = ctx.field('fv', nc)
            pv = FieldVariable('w', 'unknown', f)
            pv.set_data(np.zeros(f.n_nod * nc, dtype=ctx.dtype))
            variables.append(pv)
        v = FieldVariable('v', 'test', f, primary_var_name=pv.name)
        variables.append(v)
        names[iv] = 'v'
        slots[iv] = ('v', (f, nc, None, pv))
    expr = '%r * %s.i.%s(%s)' % (coef, spec['name'], ctx.region.name, ', '.join(names))
    return slots, mats, variables, expr


def eval_slots(ctx, slots, geo, virt=True, diff=None):
    """Slot values; `diff`: the index of the state taken as basis functions."""
    out, vi, ui = [], None, None
    C, Q = geo.w.shape
    for i, (k, val) in enumerate(slots):
        if k == 'm':
            m = val(geo.x.reshape(C * Q, -1))
            m = np.broadcast_to(m, (C * Q,) + m.shape[1:])
            out.append(m.reshape((C, Q, 1, 1) + m.shape[1:]))
        elif k in ('.', 'F'):
            out.append(val)
        elif k == 'v':
            s, vi = tm.slot_basis(geo, val[0], ctx.fcells, val[1], True)
            out.append(s)
        elif diff == i:
            s, ui = tm.slot_basis(geo, val[0], ctx.fcells, val[1], False)
            out.append(s)
        else:
            out.append(tm.slot_state(geo, val[0], ctx.fcells, ctx.freg, val[2], val[1]))
    return out, vi, ui


def make_geo(ctx, kind, field):
    if kind == 'c':
        geo = tm.cell_geo(ctx.g, ctx.conn, ctx.coors, ctx.cells, ctx.integral)
    else:
        geo = tm.facet_geo(field, ctx.region, ctx.g, ctx.conn, ctx.coors, ctx.integral)
        geo.nn = geo.n[:, :, None, None]
    geo.xx = geo.x[:, :, None, None]
    return geo


def evaluable(ctx, expr, mats, variables, mode):
    eqs, evars = create_evaluable(expr, ctx.fields, Materials(mats), Variables(variables),
                                  Integrals([ctx.integral]), mode=mode, verbose=False,
                                  extra_args={'fun': lambda p: NF(p), 'dfun': lambda p: DNF(p)})
    eqs.time_update_materials(None, verbose=False)
    return eqs, evars


def zero_terms(ctx, slots, variables):
    """Make the problem square: each unknown has its test function in a zero term."""
    pv = next(s[1][3] for s in slots if s[0] == 'v')
    zero = ' + dw_zero.i.%s(v, %s)' % (ctx.sub.name, pv.name)
    for s in slots:
        if s[0] == 's' and s[1][3] is not pv:
            x = s[1][3]
            variables.append(FieldVariable('v' + x.name, 'test', s[1][0],
                                           primary_var_name=x.name))
            zero += ' + dw_zero.i.%s(v%s, %s)' % (ctx.sub.name, x.name, x.name)
    return zero


def run_term(case, terms=None):
    key = case['key']
    spec = (terms or TERMS)[key]
    dim = int(case['mesh']['kind'][0])
    kind = spec['kinds'][case['ik'] % len(spec['kinds'])]
    if dim == 1 and kind == 'e':
        kind = spec['kinds'][0]
    if dim not in spec['dims']:
        return {'nontrivial': False, 'classes': ['outside']}
    ctx = Ctx(case, kind)
    coef = [1.0, -1.0, 2.5, -0.75][case['coef']]
    slots, mats, variables, expr = build(ctx, spec, case['vmat'], coef)
    anyf = next(s[1][0] for s in slots if s[0] in ('v', 's', 'p'))
    if kind != 'c':
        # Interior facets of different fields need common families (nodal).
        pass
    geo = make_geo(ctx, kind, anyf)
    if spec['mode'] == 'weak':
        variables = list(variables)
        zero = zero_terms(ctx, slots, variables)
        eqs, evars = evaluable(ctx, expr + zero, mats, variables, 'weak')
        # References first: evaluating the bases resets the field data.
        ref = np.zeros(evars.di.n_dof_total)
        off = {n: evars.di.indx[n].start for n in evars.di.indx}
        a, vi, _ = eval_slots(ctx, slots, geo)
        loc = tm.integrate(spec['fun'](geo, *a), geo)[:, :, 0] * coef
        vs = next(s[1] for s in slots if s[0] == 'v')
        np.add.at(ref, off[vs[3].name] + vi, loc)
        mref = np.zeros((len(ref), len(ref)))
        for i, (k, val) in enumerate(slots):
            if k != 's' or spec['nl']:
                continue
            a, vi, ui = eval_slots(ctx, slots, geo, diff=i)
            fun = spec['fun']
            f = fun(geo, *a)
            if spec['name'] in ('dw_bc_newton', 'dw_jump'):
                # Affine: subtract the constant part.
                z = list(slots)
                z[i] = (k, (val[0], val[1], np.zeros_like(val[2]), val[3]))
                b, _, _ = eval_slots(ctx, z, geo)
                f = f - fun(geo, *b)
            m = tm.integrate(f, geo) * coef
            np.add.at(mref, (off[vs[3].name] + vi[:, :, None], off[val[3].name] +
                             ui[:, None, :]), m)
        vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
        check(vec.shape == ref.shape, '%s: residual size %d instead of %d', expr, len(vec),
              len(ref))
        close(vec, ref, 1e-9, 1e-11 * max(1, np.abs(ref).max()), 'residual of ' + expr)
        if any(s[0] == 's' for s in slots) and not spec['nl']:
            mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
            close(mtx.toarray(), mref, 1e-9, 1e-11 * max(1, np.abs(mref).max()),
                  'matrix of ' + expr)
        nz = np.abs(ref).max() > 1e-10
    else:
        eqs, evars = evaluable(ctx, expr, mats, variables, 'eval')
        a, _, _ = eval_slots(ctx, slots, geo)
        f = spec['fun'](geo, *a) * coef
        tmode = 'flux' if spec['mode'] == 'flux' else None

        def ev(mode):
            return eval_equations(eqs, evars, mode=mode, term_mode=tmode, verbose=False)
        if spec['mode'] == 'eval':
            tot = (f * geo.w[:, :, None, None]).sum((1, 2, 3))
            el = tot[:, None, None, None]
        else:
            f = np.broadcast_to(f, geo.w.shape + (1, 1) + f.shape[-2:])[:, :, 0, 0]
            el = np.einsum('cqij,cq->cij', f, geo.w)[:, None]
        total = el.sum(0).squeeze()
        sca = max(1, np.abs(el).max())
        got = ev('eval')
        close(np.asarray(got), total, 1e-9, 1e-10 * sca, 'value of ' + expr)
        if spec['mode'] == 'eval':
            got = ev('el_eval')
            check(got.shape == (len(geo.cells), 1, 1, 1), 'shape of element values %s', got.shape)
            close(got, el, 1e-9, 1e-11 * sca, 'element values of ' + expr)
        else:
            if spec['mode'] in ('ev', 'flux', 'evs'):
                el_avg = el / geo.w.sum(1)[:, None, None, None]
                got = ev('el_avg')
                check(got.shape == el_avg.shape, 'shape of element averages %s', got.shape)
                close(got, el_avg, 1e-9, 1e-11 * sca, 'element averages of ' + expr)
            if spec['mode'] in ('ev', 'flux'):
                got = ev('qp')
                check(got.shape == f.shape, 'shape of quadrature point values %s', got.shape)
                close(got, f, 1e-9, 1e-11 * sca, 'quadrature point values of ' + expr)
            got = ev('el_eval')
            check(got.shape == el.shape, 'shape of element values %s', got.shape)
            close(got, el, 1e-9, 1e-11 * sca, 'element values of ' + expr)
        nz = np.abs(el).max() > 1e-10
    return {'nontrivial': bool(nz) and len(geo.cells) > 1,
            'classes': [spec['name'] + '-' + kind, ctx.g, 'mode-' + spec['mode'],
                        'vmat%d' % case['vmat'], 'fam-' + case['fam']]}


def strat_terms(key):
    def mk(key):
        spec = TERMS[key]
        kinds = [k for k in ['1_2', '2_3', '2_4', '3_4', '3_8'] if int(k[0]) in spec['dims']]
        fams = ['lagrange', 'lagrange', 'serendipity', 'lobatto']
        if spec['kinds'] != 'c':
            fams = fams[:3]
        return st.fixed_dictionaries(dict(
            key=st.just(key), mesh=gen.cases(kinds, max_cells=2), ik=st.integers(0, 3),
            coef=st.integers(0, 3), vmat=st.integers(0, 1), sub=st.integers(0, 1),
            fsub=st.integers(0, 1), part=st.integers(0, 1), order=st.integers(1, 2),
            iorder=st.integers(1, 4), mixed=st.integers(0, 1), fam=st.sampled_from(fams),
            seed=st.integers(0, 10 ** 6)))
    return mk(key)


# Terms with fading memory: name: (variables, material shape, integrand(virtual, value)).
HIST = {
    'dw_volume_dot_w_scalar': (('v:1', 's:1'), (1, 1),
                               lambda m, v, u: m[..., 0, 0] * v.s * u.s),
    'dw_lin_elastic': (('v:D', 's:D'), ('S', 'S'), lambda m, v, u: dot(v.strain, mv(m, u.strain))),
    'dw_biot': (('v:D', 's:1'), ('S', 1), lambda m, v, p: p.s * dot(v.strain, m[..., 0])),
    'dw_biot-div': (('s:D', 'v:1'), ('S', 1), lambda m, u, q: q.s * dot(u.strain, m[..., 0])),
    'ev_cauchy_stress': (('p:D',), ('S', 'S'), lambda m, u: col(mv(m, u.strain))),
}


def run_history(case):
    """Exponential and tabulated kernels equal the discrete convolution."""
    from sfepy.discrete import Equations
    from sfepy.solvers.ts import TimeStepper
    key = case['key']
    name = key.split('-')[0]
    slots_, msh, fun = HIST[key]
    ctx = Ctx(case)
    dim, rs = ctx.dim, ctx.rs
    nst = 4
    msh = tm.resolve(msh, dim)
    G0 = rs.uniform(-1, 1, msh)
    decay = rs.uniform(0.2, 0.9)
    if case['eth']:
        kernel = np.array([G0 * decay ** k for k in range(nst + 1)])
        mats = [Material('m0', values={'G': G0}), Material('m1', values={'d': decay})]
        mnames = 'm0.G, m1.d'
    else:
        kernel = rs.uniform(-1, 1, (case['nk'],) + msh)
        mats = [Material('m0', values={'.G': kernel})]
        mnames = 'm0.G'
    suffix = '_eth' if case['eth'] else '_th'
    # The state vector of all unknowns has no values before the initial time.
    whole = case['whole'] and case['eth']
    H = max(len(kernel) + 1, nst + 1)
    variables, names, vinfo, uvar, ufield = [], [], None, None, None
    for sl in slots_:
        k, sh = sl.split(':')
        nc = tm.resolve(sh if sh == 'D' else 1, dim)
        f = ctx.field('f' + k, nc)
        if k == 'v':
            same = [x for x in slots_ if x[0] == 's' and x[2:] == sh]
            vinfo = [f, nc, 'u' if same else 'w']
            names.append('v')
        else:
            uvar = FieldVariable('u', 'unknown', f, history=H)
            variables.append(uvar)
            names.append('du/dt' if case['der'] else 'u')
            ufield, unc = f, nc
    if vinfo is not None:
        if vinfo[2] == 'u':
            vinfo[0] = ufield
        else:
            variables.append(FieldVariable('w', 'unknown', vinfo[0]))
        variables.append(FieldVariable('v', 'test', vinfo[0], primary_var_name=vinfo[2]))
    expr = '%s%s.i.%s(ts, %s, %s)' % (name, suffix, ctx.region.name, mnames, ', '.join(names))
    zero = ''
    if vinfo is not None:
        zero = ' + dw_zero.i.%s(v, %s)' % (ctx.region.name, vinfo[2])
        if vinfo[2] == 'w':
            variables.append(FieldVariable('vu', 'test', ufield, primary_var_name='u'))
            zero += ' + dw_zero.i.%s(vu, u)' % ctx.region.name
    ts = TimeStepper(0.0, nst * 0.3, n_step=nst + 1)
    eqs, evars = create_evaluable(expr + zero, ctx.fields, Materials(mats), Variables(variables),
                                  Integrals([ctx.integral]), mode='eval' if vinfo is None else
                                  'weak', extra_args={'ts': ts}, verbose=False)
    u = evars['u']
    u.init_history()
    eqs.time_update_materials(ts, verbose=False)
    evars.time_update(ts, None, verbose=False)
    geo = make_geo(ctx, 'c', ufield)
    hist = []
    zero_dofs = np.zeros(ufield.n_nod * unc)
    d0 = rs.uniform(-1, 1, len(zero_dofs))
    # The state is constant before the initial time.
    for k in range(1, H + 1):
        u.set_data(d0.copy(), step=-k)
    if vinfo is not None:
        eqs.time_update(ts, active_only=False, verbose=False)
        if whole:
            evars.init_state()
    basis = {}
    if vinfo is not None:
        off = {n: evars.di.indx[n].start for n in evars.di.indx}
        basis['v'] = tm.slot_basis(geo, vinfo[0], ctx.fcells, vinfo[1], True)
        basis['u'] = tm.slot_basis(geo, ufield, ctx.fcells, unc, False)
    for step, t in ts:
        if step == nst:
            break
        d = rs.uniform(-1, 1, len(zero_dofs)) if step else d0
        hist.append(d)
        if vinfo is not None and whole:
            # All unknowns at once, as solvers do.
            full_ = np.zeros(evars.di.n_dof_total)
            full_[evars.di.indx['u']] = d
            evars.set_state(full_)
        else:
            u.set_data(d.copy())
            for o in variables:
                if o.name == 'w':
                    o.set_data(np.zeros(o.field.n_nod * vinfo[1]))
        val = None
        for k, G in enumerate(kernel):
            if k > step and case['eth']:
                break
            a, b = hist[max(step - k, 0)], hist[max(step - k - 1, 0)]
            x = (a - b) / ts.dt if case['der'] else a
            sl = tm.slot_state(geo, ufield, ctx.fcells, ctx.freg, x, unc)
            args = [G]
            for s_ in slots_:
                args.append(basis['v'][0] if s_[0] == 'v' else sl)
            f = ts.dt * fun(*args)
            val = f if val is None else val + f
        tag = '%s, step %d' % (expr, step)
        if vinfo is None:
            f = np.broadcast_to(val, geo.w.shape + (1, 1) + val.shape[-2:])[:, :, 0, 0]
            el = np.einsum('cqij,cq->cij', f, geo.w)[:, None]
            for rep in range(2):
                for mode, ref in (('qp', f), ('el_eval', el),
                                  ('el_avg', el / geo.w.sum(1)[:, None, None, None])):
                    got = eval_equations(eqs, evars, mode=mode, verbose=False)
                    close(got, ref, 1e-9, 1e-11 * max(1, np.abs(ref).max()), mode + ' of ' + tag)
        else:
            ref = np.zeros(evars.di.n_dof_total)
            vi = basis['v'][1]
            np.add.at(ref, off[vinfo[2]] + vi, tm.integrate(val, geo)[:, :, 0])
            args = [kernel[0]]
            for s_ in slots_:
                args.append(basis['v'][0] if s_[0] == 'v' else basis['u'][0])
            m = tm.integrate(ts.dt * fun(*args) / (ts.dt if case['der'] else 1), geo)
            mref = np.zeros((len(ref), len(ref)))
            np.add.at(mref, (off[vinfo[2]] + vi[:, :, None],
                             off['u'] + basis['u'][1][:, None, :]), m)
            for rep in range(1 + case['rep']):
                vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
                close(vec, ref, 1e-9, 1e-11 * max(1, np.abs(ref).max()), 'residual of ' + tag)
            mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
            close(mtx.toarray(), mref, 1e-9, 1e-11 * max(1, np.abs(mref).max()),
                  'matrix of ' + tag)
        evars.advance(ts)
    return {'nontrivial': True, 'classes': [key + suffix, ctx.g, 'der%d' % case['der']]}


def strat_history(key):
    return st.fixed_dictionaries(dict(
        key=st.just(key), mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2),
        eth=st.integers(0, 1), nk=st.integers(1, 4), der=st.integers(0, 1), rep=st.integers(0, 1),
        whole=st.integers(0, 1), sub=st.integers(0, 1), fsub=st.integers(0, 1), order=st.integers(1, 2),
        iorder=st.integers(1, 3), fam=st.just('lagrange'), seed=st.integers(0, 10 ** 6)))


def run_nodal(case):
    """Point terms and sums of nodal values."""
    ctx = Ctx(case)
    dim, rs = ctx.dim, ctx.rs
    f = make_field('f', dim, ctx.freg, case['order'], 'lagrange')
    ctx.fields['f'] = f
    verts = np.unique(ctx.conn[ctx.fcells].ravel())
    sel = verts[pick(case['seed'] + 1, len(verts), 0.5)]
    if not len(sel):
        sel = verts[:1]
    name = 'vertex ' + ', '.join(map(str, sel))
    pts = ctx.dom.create_region('P', name, 'vertex')
    check(sorted(np.asarray(pts.vertices).tolist()) == sorted(sel.tolist()), 'region of points')
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    p = FieldVariable('p', 'parameter', f, primary_var_name='(set-to-None)')
    d = rs.uniform(-1, 1, f.n_nod * dim)
    u.set_data(d.copy())
    p.set_data(d.copy())
    k = rs.uniform(0.5, 2)
    load = rs.uniform(-1, 1, (len(sel), dim)) if case['each'] else rs.uniform(-1, 1, dim)
    if dim == 1:
        load = float(load.ravel()[0])
    mats = [Material('m', values={'.k': k, '.load': load})]
    c1, c2 = rs.uniform(-2, 2, 2).tolist()
    expr = ('%r * dw_point_lspring.i.P(m.k, v, u) + %r * dw_point_load.i.P(m.load, v)'
            ' + dw_zero.i.%s(v, u)' % (c1, c2, ctx.freg.name)).replace('+ -', '- ')
    eqs, evars = evaluable(ctx, expr, mats, [u, v], 'weak')
    # The DOFs of the vertices by coordinates.
    xc = f.get_coor()
    pos = np.array([np.abs(xc - ctx.coors[i]).sum(1).argmin() for i in pts.vertices])
    check(np.abs(xc[pos] - ctx.coors[pts.vertices]).max() < 1e-12, 'vertices are nodes')
    ref = np.zeros((f.n_nod, dim))
    mref = np.zeros((f.n_nod, dim))
    ref[pos] += -c1 * k * d.reshape(-1, dim)[pos] + c2 * np.broadcast_to(load, (len(sel), dim))
    mref[pos] += -c1 * k
    vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
    close(vec, ref.ravel(), 1e-12, 1e-12, 'residual of ' + expr)
    mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
    close(mtx.toarray(), np.diag(mref.ravel()), 1e-12, 1e-12, 'matrix of ' + expr)
    eqs, evars = evaluable(ctx, 'ev_sum_vals.i.%s(p)' % ctx.freg.name, [], [p], 'eval')
    got = eval_equations(eqs, evars, mode='eval', verbose=False)
    close(np.ravel(got), d.reshape(-1, dim).sum(0), 1e-11, 1e-11, 'sum of nodal values')
    return {'nontrivial': len(sel) > 1, 'classes': [ctx.g, 'order%d' % case['order']]}


def strat_nodal(_):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2), each=st.integers(0, 1), sub=st.integers(0, 1), fsub=st.integers(0, 1),
        order=st.integers(1, 2), iorder=st.just(2), fam=st.just('lagrange'),
        seed=st.integers(0, 10 ** 6)))


SUBS = [Sub('terms', strat_terms, run_term, n=12, thorough=250, items=KEYS),
        Sub('history', strat_history, run_history, n=14, thorough=300, items=sorted(HIST)),
        Sub('nodal', strat_nodal, run_nodal, n=60, thorough=1000)]
