"""H02: hyperelastic materials derive from their energies."""
import numpy as np
import hypothesis.strategies as st

import gen
import pb
import tm
from harness import Sub, Skip, check, close
import t01
from t01 import Ctx, build, evaluable, make_geo, full, iso
from tm import SYM

from sfepy.base.base import IndexedStruct
from sfepy.discrete import Material
from sfepy.discrete.evaluate import eval_equations

PROP = 'H02'
RULE = ('Cases: hyperelastic term x random mesh x field order x random, rotated, dilated or '
        'homogeneous deformation x constant or variable parameters; TL and UL problems.  Oracle: '
        'strain energies and stresses in NumPy, integrated pointwise; complex-step derivatives '
        'of energies; rotation, reference-state and TL/UL relations.  Non-trivial: non-zero '
        'stress with more than one cell.')
ASSUMPTIONS = ['deformation gradients with positive determinants', 'two dimensions: plane strain',
               'UL formulation: order 1 displacements (the mesh is moved by nodes)']

EYE3 = np.eye(3)


def defgrad(u):
    """F (..., dim, dim)."""
    dim = u.grad.shape[-1]
    return np.eye(dim) + np.swapaxes(u.grad, -1, -2)


def emb(C):
    """Plane strain embedding."""
    if C.shape[-1] == 3:
        return C
    out = np.zeros(C.shape[:-2] + (3, 3), dtype=C.dtype)
    out[..., :2, :2] = C
    out[..., 2, 2] = 1
    return out


def c_of(F):
    return np.swapaxes(F, -1, -2) @ F


def inv_parts(C):
    C3 = emb(C)
    tr = np.trace(C3, axis1=-2, axis2=-1)
    i2 = 0.5 * (tr ** 2 - np.einsum('...ij,...ji->...', C3, C3))
    J = np.sqrt(np.linalg.det(C3))
    return C3, tr, i2, J


def ex(a):
    return np.asarray(a)[..., None, None]


def par(m, k=0):
    return m[..., 0, k]


# Second Piola-Kirchhoff stresses S(F, parameters), in plane strain components.
def s_neohook(F, m):
    C3, tr, _, J = inv_parts(c_of(F))
    return ex(par(m) * J ** (-2 / 3)) * (EYE3 - ex(tr) / 3 * np.linalg.inv(C3))


def s_mooney(F, m):
    C3, tr, i2, J = inv_parts(c_of(F))
    return ex(par(m) * J ** (-4 / 3)) * (ex(tr) * EYE3 - C3 - 2 / 3 * ex(i2) * np.linalg.inv(C3))


def s_yeoh(F, m):
    C3, tr, _, J = inv_parts(c_of(F))
    x = np.maximum(J ** (-2 / 3) * tr - 3, 0)
    if m.shape[-1] == 2:
        ks, ms = [par(m, 0)], [par(m, 1)]
    else:
        ks, ms = [par(m, k) for k in range(3)], [par(m, k) for k in range(3, 6)]
    co = sum(k * p * x ** (p - 1) for k, p in zip(ks, ms))
    return ex(2 * co * J ** (-2 / 3)) * (EYE3 - ex(tr) / 3 * np.linalg.inv(C3))


def s_ogden(F, m):
    C = c_of(F)
    mu, al = par(m, 0), par(m, 1)
    w, v = np.linalg.eigh(C)
    J = np.sqrt(np.linalg.det(C))
    p = w ** (al[..., None] / 2)
    s = (p - p.sum(-1, keepdims=True) / 3) / w
    return ex(mu * J ** (-al / 3)) * np.einsum('...ik,...k,...jk->...ij', v, s, v)


def green(F):
    E = 0.5 * (c_of(F) - np.eye(F.shape[-1]))
    return E


def sym_vec(E, eng=False):
    dim = E.shape[-1]
    return np.stack([E[..., i, j] * (2 if eng and i != j else 1) for i, j in SYM[dim]], -1)


def s_svk(F, D):
    return full(np.einsum('...ij,...j->...i', D, sym_vec(green(F), True)))


def s_bulk(F, m):
    C = c_of(F)
    J = np.sqrt(np.linalg.det(C))
    return ex(par(m) * (J - 1) * J) * np.linalg.inv(C)


def s_active(F, m):
    C = c_of(F)
    return ex(par(m) * np.sqrt(np.linalg.det(C))) * np.linalg.inv(C)


def fib(F, d, tau):
    d = d[..., 0]
    eps = np.einsum('...i,...ij,...j->...', d, green(F), d)
    return ex(tau(eps)) * d[..., :, None] * d[..., None, :]


def s_fib_a(F, f, o, s, d, a):
    return fib(F, d, lambda e: par(a) * par(f) * np.exp(-((e - par(o)) / par(s)) ** 2))


def s_fib_e(F, s, k, e0, d):
    return fib(F, d, lambda e: np.maximum(0, par(s) * np.expm1(par(k) * (e - par(e0)))))


def s_fib_spe(F, *a):
    al = a[0] if len(a) == 5 else 50.0
    s, k, e0, d = a[-4:]
    return fib(F, d, lambda e: np.logaddexp(
        0, al * par(s) * np.expm1(par(k) * (e - par(e0)))) / al)


# Densities of the documented strain energies.
def w_neohook(C, m):
    C3, tr, _, J = inv_parts(C)
    return par(m) / 2 * (J ** (-2 / 3) * tr - 3)


def w_mooney(C, m):
    C3, tr, i2, J = inv_parts(C)
    return par(m) / 2 * (J ** (-4 / 3) * i2 - 3)


def w_bulk(C, m):
    return par(m) / 2 * (np.sqrt(np.linalg.det(C)) - 1) ** 2


def w_active(C, m):
    return par(m) * np.sqrt(np.linalg.det(C))


def w_svk(C, D):
    e = sym_vec(0.5 * (C - np.eye(C.shape[-1])), True)
    return 0.5 * np.einsum('...i,...ij,...j->...', e, D, e)


def w_ogden(C, m):
    mu, al = par(m, 0), par(m, 1)
    w = np.linalg.eigvalsh(C)
    return mu / al * ((w ** (al[..., None] / 2)).sum(-1) * np.linalg.det(C) ** (-al / 6) - 3)


def w_yeoh(C, m):
    C3, tr, _, J = inv_parts(C)
    x = np.maximum(J ** (-2 / 3) * tr - 3, 0)
    if m.shape[-1] == 2:
        return par(m, 0) * x ** par(m, 1)
    return sum(par(m, k) * x ** par(m, k + 3) for k in range(3))


SPECS, STRESS, WS, ZERO = {}, {}, {}, set()


def H(name, args, fun, dims=(2, 3), stress=True, w=None, zero=False, kinds='c',
      mode='weak'):
    slots = [tuple(x.split(':', 1)) for x in args.split()]
    slots = [(k, tuple(int(s) if s.isdigit() else s for s in sh.split(','))) for k, sh in slots]
    key = name
    while key in SPECS:
        key += "'"
    if stress:
        sfun = fun

        def fun(g, *a):
            F = defgrad(a[-1])
            S = sfun(F, *a[:-2])
            dim = F.shape[-1]
            S = S[..., :dim, :dim]
            # Variation of the Green strain.
            dE = F.swapaxes(-1, -2) @ np.swapaxes(a[-2].grad, -1, -2)
            return np.einsum('...ij,...ij->...', S, dE)
        STRESS[key] = sfun
        WS[key] = w
        if zero:
            ZERO.add(key)
    SPECS[key] = dict(name=name, slots=slots, fun=fun, kinds=kinds, mode=mode, dims=dims,
                      nl=True, amp=0.05)


H('dw_tl_he_neohook', 'P:1,1 v:D s:D', s_neohook, w=w_neohook, zero=True)
H('dw_tl_he_mooney_rivlin', 'P:1,1 v:D s:D', s_mooney, w=w_mooney, zero=True)
H('dw_tl_he_genyeoh', 'P:1,6 v:D s:D', s_yeoh, dims=(3,), w=w_yeoh)
H('dw_tl_he_genyeoh', 'P:1,2 v:D s:D', s_yeoh, dims=(3,), w=w_yeoh)
H('dw_tl_he_ogden', 'P:1,2 v:D s:D', s_ogden, dims=(3,), w=w_ogden, zero=True)
H('dw_tl_he_svk', 'sm:S,S v:D s:D', s_svk, w=w_svk, zero=True)
H('dw_tl_bulk_penalty', 'P:1,1 v:D s:D', s_bulk, w=w_bulk, zero=True)
H('dw_tl_bulk_active', 'P:1,1 v:D s:D', s_active, w=w_active)
H('dw_tl_fib_a', 'P:1,1 P:1,1 P:1,1 dir:D,1 P:1,1 v:D s:D', s_fib_a)
H('dw_tl_fib_e', 'P:1,1 P:1,1 m:1,1 dir:D,1 v:D s:D', s_fib_e)
H('dw_tl_fib_spe', '.:n P:1,1 P:1,1 m:1,1 dir:D,1 v:D s:D', s_fib_spe)
H('dw_tl_fib_spe', 'P:1,1 P:1,1 m:1,1 dir:D,1 v:D s:D', s_fib_spe)
H('dw_tl_he_neohook_ad', 'cP:1,1 v:D s:D', s_neohook, dims=(3,), w=w_neohook, zero=True)
H('dw_tl_he_ogden_ad', 'cP:1,1 cP:1,1 v:D s:D',
  lambda F, a, b: s_ogden(F, np.concatenate(np.broadcast_arrays(a, b), -1)), dims=(3,), zero=True)


def f_pressure(g, v, u, p):
    F = defgrad(u)
    J = np.linalg.det(F)
    # J F^-T : grad v.
    return -p.s * J * np.einsum('...ij,...ij->...', np.linalg.inv(F),
                                v.grad)


def f_diffusion(g, k, n, q, p, u):
    F = defgrad(u)
    J = np.linalg.det(F)
    Fi = np.linalg.inv(F)
    K = ex(J * np.maximum(0, 1 + (J - 1) / par(n)) ** 2) * (Fi @ k @ Fi.swapaxes(-1, -2))
    return np.einsum('...i,...ij,...j->...', q.ds, K, p.ds)


def f_traction(g, *a):
    v, u = a[-2:]
    F = defgrad(u)
    sg = a[0] if len(a) == 3 else np.eye(F.shape[-1])
    t = np.linalg.det(F)[..., None] * np.einsum('...i,...ij,...jk->...k', g.nn,
                                                np.linalg.inv(F), sg + 0 * F)
    return (t * v.val).sum(-1)


H('dw_tl_bulk_pressure', 'v:D s:D s:1', f_pressure, stress=False)
H('dw_tl_volume', 'v:1 s:D', lambda g, q, u: q.s * np.linalg.det(defgrad(u)), stress=False)
H('dw_tl_diffusion', 'm:D,D P:1,1 v:1 s:1 p:D', f_diffusion, stress=False)
H('dw_tl_surface_traction', 'm:D,D v:D s:D', f_traction, stress=False, kinds='e')
H('dw_tl_surface_traction', 'v:D s:D', f_traction, stress=False, kinds='e')


def f_volume_surface(g, u):
    F = defgrad(u)
    x = g.xx + u.val
    t = np.einsum('...i,...ij,...j->...', g.nn, np.linalg.inv(F), x)
    return t * np.linalg.det(F) / F.shape[-1]


def f_flux(g, k, n, p, u):
    F = defgrad(u)
    J = np.linalg.det(F)
    Fi = np.linalg.inv(F)
    K = ex(J * np.maximum(0, 1 + (J - 1) / par(n)) ** 2) * (Fi @ k @ Fi.swapaxes(-1, -2))
    return np.einsum('...i,...ij,...j->...', g.nn, K, p.ds)


H('ev_tl_volume_surface', 'p:D', f_volume_surface, stress=False, kinds='e', mode='eval')
H('ev_tl_surface_flux', 'm:D,D P:1,1 p:1 p:D', f_flux, stress=False, kinds='e', mode='eval')


# Differentiable linear terms.
def f_elastic(lam, mu, v, u):
    e, d = u.grad + u.grad.swapaxes(-1, -2), v.grad
    return lam * (np.trace(u.grad, axis1=-2, axis2=-1) * np.trace(d, axis1=-2, axis2=-1)) + \
        mu * (e * d).sum((-1, -2))


H('dw_lin_elastic_l_ad', 'cP:1,1 cP:1,1 v:D s:D',
  lambda g, l, m, v, u: f_elastic(par(l), par(m), v, u), stress=False)
H('dw_lin_elastic_yp_ad', 'cP:1,1 nu:1,1 v:D s:D',
  lambda g, e, n, v, u: f_elastic(par(e) * par(n) / (1 + par(n)) / (1 - 2 * par(n)),
                                  par(e) / 2 / (1 + par(n)), v, u), stress=False)
H('dw_mass_ad', 'cP:1,1 v:D s:D', lambda g, m, v, u: par(m) * (v.val * u.val).sum(-1),
  stress=False)
H('dw_mass_ad', 'cP:1,1 v:1 s:1', lambda g, m, v, u: par(m) * v.s * u.s, stress=False)


def warped(fun):
    def run(case):
        try:
            return fun(case)
        except ValueError as e:
            if 'warp violation' in str(e):
                return {'nontrivial': False, 'classes': ['warped']}
            raise
    return run


@warped
def weak_run(case):
    return t01.run_term(case, SPECS)


def base_case(key, **kw):
    spec = SPECS[key]
    kinds = [k for k in ['2_3', '2_4', '3_4', '3_8'] if int(k[0]) in spec['dims']]
    return st.fixed_dictionaries(dict(
        key=st.just(key), mesh=gen.cases(kinds, max_cells=2), ik=st.integers(0, 3),
        coef=st.integers(0, 3), vmat=st.integers(0, 1), sub=st.integers(0, 1),
        fsub=st.integers(0, 1), part=st.integers(0, 1), order=st.integers(1, 2),
        iorder=st.integers(1, 3), mixed=st.just(0),
        fam=st.sampled_from(['lagrange'] if kw else ['lagrange', 'lagrange', 'serendipity']),
        seed=st.integers(0, 10 ** 6), **kw))


# --- stresses ---------------------------------------------------------------------------------

def rotation(rs, dim):
    q, r = np.linalg.qr(rs.uniform(-1, 1, (dim, dim)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


@warped
def stress_run(case):
    key = case['key']
    spec = SPECS[key]
    dim = int(case['mesh']['kind'][0])
    ctx = Ctx(case, 'c')
    rs = np.random.RandomState(case['seed'] + 7)
    slots, mats, variables, expr = build(ctx, spec, case['vmat'], 1.0)
    f, nc, d, uvar = next(s[1] for s in slots if s[0] == 's')
    iu = [s[0] for s in slots].index('s')
    X = f.get_coor()
    kind = case['state']
    A = np.eye(dim) + rs.uniform(-0.2, 0.2, (dim, dim))
    R = rotation(rs, dim)
    if kind == 'random':
        data = [d]
    elif kind == 'affine':
        data = [X @ (A - np.eye(dim)).T + rs.uniform(-1, 1, dim)]
    elif kind == 'rotation':
        data = [X @ (R - np.eye(dim)).T + rs.uniform(-1, 1, dim)]
    elif kind == 'objective':
        # x -> R x + c does not change the second Piola-Kirchhoff stress.
        y = X + d.reshape(X.shape)
        data = [d, y @ R.T + rs.uniform(-1, 1, dim) - X]
    else:
        data = [0.0 * X]
    geo = make_geo(ctx, 'c', f)
    mvals = [s[1](geo.x.reshape(-1, dim)) for s in slots if s[0] == 'm']
    mvals = [np.broadcast_to(m, (geo.w.size,) + m.shape[1:]).reshape(geo.w.shape + m.shape[1:])
             for m in mvals]
    if slots[0][0] == '.':
        mvals.insert(0, slots[0][1])
    res = []
    for u in data:
        u = np.ascontiguousarray(u).ravel()
        uvar.set_data(u.copy())
        eqs, evars = evaluable(ctx, expr, mats, list(variables), 'qp')
        us = tm.slot_state(geo, f, ctx.fcells, ctx.freg, u, nc)
        F = defgrad(us)[:, :, 0, 0]
        S = STRESS[key](F, *mvals)[..., :dim, :dim]
        E = green(F)

        def ev(mode, term_mode):
            return eval_equations(eqs, evars, mode=mode, term_mode=term_mode, verbose=False)
        for tmode, ref in (('stress', S), ('strain', E)):
            ref = sym_vec(ref)[..., None]
            got = ev('qp', tmode)
            check(got.shape == ref.shape, 'shape of %s %s', tmode, got.shape)
            sca = max(1, np.abs(ref).max())
            tol = 1e-11 * sca
            if kind in ('rotation', 'zero') and 'yeoh' in key:
                # Non-integer powers of rounding errors.
                continue
            close(got, ref, 1e-9, tol, '%s in %s of %s' % (tmode, 'qp', expr))
            got = np.asarray(ev('el_avg', tmode))
            av = np.einsum('cqij,cq->cij', ref, geo.w)[:, None] / geo.w.sum(1)[:, None, None, None]
            check(got.shape == av.shape, 'shape of averaged %s %s', tmode, got.shape)
            close(got, av, 1e-9, tol, 'averaged %s of %s' % (tmode, expr))
        res.append(ev('qp', 'stress'))
        w = WS[key]
        if w is not None and kind in ('random', 'affine'):
            # Stress by differentiation of the energy density.
            C = c_of(F)
            num = np.zeros_like(S)
            h = 1e-6
            for i, j in SYM[dim]:
                dC = np.zeros((dim, dim))
                dC[i, j] += 0.5
                dC[j, i] += 0.5
                der = (w(C + h * dC, *mvals) - w(C - h * dC, *mvals)) / h
                num[..., i, j] = num[..., j, i] = der
            if 'yeoh' in key:
                # Large derivatives close to the reference state.
                C3, tr, _, J = inv_parts(C)
                if (J ** (-2 / 3) * tr - 3).min() < 1e-3:
                    num = None
            if num is not None:
                close(sym_vec(num)[..., None], res[-1], 1e-6, 1e-7 * max(1, np.abs(S).max()),
                      'stress of %s and its energy' % expr)
    if len(res) == 2 and 'fib_e' not in key:
        ok = True
        if 'yeoh' in key:
            C3, tr, _, J = inv_parts(C := c_of(F))
            ok = (J ** (-2 / 3) * tr - 3).min() > 1e-3
        if ok:
            close(res[1], res[0], 1e-7, 1e-9 * max(1, np.abs(res[0]).max()),
                  'stress of %s under rotation' % expr)
    if kind in ('rotation', 'zero') and key in ZERO:
        close(res[0], 0 * res[0], 0, 1e-10 * max(1, max(np.max(np.abs(m)) for m in mvals)),
              'stress of %s in the reference state' % expr)
    return {'nontrivial': len(ctx.cells) > 1 and (
        np.abs(res[0]).max() > 1e-8 or kind in ('rotation', 'zero')),
            'classes': [spec['name'], kind, ctx.g]}


def stress_case(key):
    return base_case(key, state=st.sampled_from(
        ['random', 'random', 'affine', 'rotation', 'objective', 'objective', 'zero']))


# --- derivatives with respect to parameters ---------------------------------------------------

@warped
def ad_run(case):
    spec = SPECS[case['key']]
    ctx = Ctx(case, 'c')
    slots, mats, variables, expr = build(ctx, spec, 0, 1.0)
    # Parameters are recognized by their names.
    pars, ms = [], []
    for i, m in enumerate(mats):
        val = slots[int(m.name[1:])][1](np.zeros((1, ctx.dim)))[0]
        ms.append(Material(m.name, values={'par%d' % i: val}))
        expr = expr.replace(m.name + '.val', '%s.par%d' % (m.name, i))
        pars.append('par%d' % i)
    eqs, evars = evaluable(ctx, expr + t01.zero_terms(ctx, slots, variables), ms,
                           list(variables), 'weak')
    eqs.time_update_materials(None, verbose=False)
    got = eqs.evaluate(mode='weak', dw_mode='sensitivity', diff_vars=pars,
                       asm_obj=np.zeros((evars.di.n_dof_total, len(pars)), order='F'))
    vf, vnc = next(s[1][:2] for s in slots if s[0] == 'v')
    geo = make_geo(ctx, 'c', vf)
    a, vi, _ = t01.eval_slots(ctx, slots, geo)
    h = 1e-5
    off = evars.di.indx[next(s[1][3].name for s in slots if s[0] == 'v')].start
    for ip, name in enumerate(pars):
        loc = []
        for d in (h, -h):
            b = list(a)
            b[ip] = a[ip] + d
            loc.append(tm.integrate(spec['fun'](geo, *b), geo)[:, :, 0])
        ref = np.zeros(len(got))
        np.add.at(ref, off + vi, (loc[0] - loc[1]) / (2 * h))
        close(got[:, ip], ref, 1e-6, 1e-7 * max(1, np.abs(ref).max()),
              'derivative of %s w.r.t. %s' % (expr, name))
    return {'nontrivial': len(ctx.cells) > 1, 'classes': [spec['name'], ctx.g]}


# --- total and updated Lagrangian formulations ------------------------------------------------

UTERMS = [('he_neohook', 'm.mu, v, u'), ('he_mooney_rivlin', 'm.kappa, v, u'),
          ('bulk_penalty', 'm.K, v, u'), ('bulk_pressure', 'v, u, p')]


def ul_conf(ul, case, dim):
    n = 'ul' if ul else 'tl'
    terms = [UTERMS[i] for i in case['terms']]
    rs = np.random.RandomState(case['seed'] + 3)
    vals = {k: float(x) for k, x in zip(('mu', 'kappa', 'K', 'c'), rs.uniform(0.3, 2, 4))}
    e1 = ' + '.join('dw_%s_%s.i.Omega(%s)' % (n, t, a) for t, a in terms)
    if ul:
        e2 = 'dw_ul_volume.i.Omega(q, u) + dw_ul_compressible.i.Omega(m.c, q, p, u)'
    else:
        e2 = 'dw_tl_volume.i.Omega(q, u) - dw_integrate.i.Omega(q) + dw_dot.i.Omega(m.c, q, p)'
    conf = dict(
        regions={'Omega': 'all'},
        materials={'m': (vals,)},
        fields={'disp': ('real', 'vector', 'Omega', 1), 'pres': ('real', 'scalar', 'Omega',
                                                                case['porder'])},
        variables={'u': ('unknown field', 'disp', 0), 'v': ('test field', 'disp', 'u'),
                   'p': ('unknown field', 'pres', 1), 'q': ('test field', 'pres', 'p')},
        ebcs={}, integrals={'i': case['iorder']},
        equations={'a': e1 + ' = 0', 'b': e2 + ' = 0'},
        solvers={'ls': ('ls.scipy_direct', {}), 'n': ('nls.newton', {})},
        options={'ulf': True, 'mesh_update_variables': ['u']} if ul else {})
    return conf, terms, vals


@warped
def ul_run(case):
    dim = int(case['mesh']['kind'][0])
    ps = []
    for ul in (0, 1):
        conf, terms, vals = ul_conf(ul, case, dim)
        p = pb.problem(case['mesh'], conf)
        p.time_update()
        p.update_materials()
        p.get_variables().init_state()
        ps.append(p)
    ind = ps[0].get_variables().adi.indx
    n = ps[0].get_variables().adi.n_dof_total
    rs = np.random.RandomState(case['seed'])
    big = 0
    for it, amp in enumerate(case['amps']):
        vec = rs.uniform(-1, 1, n) * 0.02 * amp
        if case['rot']:
            # The deformation is followed by a rotation.
            R = rotation(rs, dim)
            X = ps[0].fields['disp'].get_coor()
            u = vec[ind['u']].reshape(-1, dim)
            vec[ind['u']] = ((X + u) @ R.T - X).ravel()
        out = []
        for ul, p in enumerate(ps):
            ev = p.get_evaluator()
            if ul:
                ev.new_ulf_iteration(p, None, vec.copy(), it, 0, 0)
            r = ev.eval_residual(vec.copy())
            K = ev.eval_tangent_matrix(vec.copy()).toarray()
            out.append((r, K))
            F = p.evaluate('ev_def_grad.i.Omega(u)', mode='qp', copy_materials=False,
                           verbose=False)
            J = p.evaluate('ev_def_grad.i.Omega(u)', mode='qp', term_mode='jacobian',
                           copy_materials=False, verbose=False)
            out[-1] += (F, J)
            for t, a in terms:
                if t == 'bulk_pressure':
                    continue
                name = 'dw_%s_%s.i.Omega(%s)' % ('ul' if ul else 'tl', t, a)
                S = full(p.evaluate(name, mode='qp', term_mode='stress', copy_materials=False,
                                    verbose=False)[..., 0])
                # Kirchhoff stress.
                out[-1] += (S if ul else F @ S @ np.swapaxes(F, -1, -2),)
        for i in range(2, len(out[0])):
            close(out[1][i], out[0][i], 1e-8, 1e-10 * max(1, np.abs(out[0][i]).max()),
                  'UL and TL ' + ('F', 'J', 'Kirchhoff stress')[min(i - 2, 2)])
        close(out[0][3][..., 0, 0], np.linalg.det(out[0][2]), 1e-10, 1e-12, 'jacobian')
        for a in ind:
            close(out[1][0][ind[a]], out[0][0][ind[a]], 1e-8, 1e-10 * max(
                1, np.abs(out[0][0]).max()), 'UL and TL residuals of %s' % a, key='residual')
            for b in ind:
                close(out[1][1][ind[a], ind[b]], out[0][1][ind[a], ind[b]], 1e-8, 1e-10 * max(
                    1, np.abs(out[0][1]).max()), 'UL and TL tangents %s, %s' % (a, b),
                    key='tangent')
        big = max(big, np.abs(out[0][0]).max())
    return {'nontrivial': big > 1e-6, 'classes': [case['mesh']['kind'], 'p%d' % case['porder']] +
            [t for t, _ in terms]}


def ul_case(item=None):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['2_3', '2_4', '3_4', '3_8'], max_cells=2), porder=st.integers(0, 1),
        iorder=st.integers(1, 3), seed=st.integers(0, 10 ** 6), rot=st.booleans(),
        terms=st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True).map(sorted),
        amps=st.lists(st.integers(0, 4), min_size=1, max_size=3)))


def bvp_run(case):
    dim = int(case['mesh']['kind'][0])
    rs = np.random.RandomState(case['seed'])
    A = rs.uniform(-1, 1, (dim, dim)) * 0.15
    c = rs.uniform(-1, 1, dim)
    k = rs.uniform(-1, 1, (dim, dim))
    sols = []
    for ul in (0, 1):
        conf, terms, vals = ul_conf(ul, case, dim)
        conf['functions'] = {'gb': (lambda ts, coor, **kw:
                                    coor @ A.T + c + 0.02 * np.sin(coor @ k.T),)}
        conf['regions']['Gamma'] = ('vertices of surface', 'facet')
        conf['ebcs'] = {'e': ('Gamma', {'u.all': 'gb'})}
        conf['solvers'] = {'ls': ('ls.scipy_direct', {}),
                           'n': ('nls.newton', {'i_max': 30, 'eps_a': 1e-10, 'eps_r': 1.0,
                                                'is_linesearch': False, 'macheps': 1e-16})}
        p = pb.problem(case['mesh'], conf)
        info = IndexedStruct()
        vv = p.solve(save_results=False, status=info)
        status = info.nls_status
        if status.condition != 0:
            return {'nontrivial': False, 'classes': ['diverged']}
        sols.append({n: vv[n]() for n in ('u', 'p')})
    for n in ('u', 'p'):
        close(sols[1][n], sols[0][n], 1e-6, 1e-7 * max(1, np.abs(sols[0][n]).max()),
              'UL and TL solutions %s' % n, key='solution')
    return {'nontrivial': np.abs(sols[0]['u']).max() > 1e-3,
            'classes': [case['mesh']['kind']] + [t for t, _ in terms]}


@warped
def bvp_run_(case):
    return bvp_run(case)


def bvp_case(item=None):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['2_3', '2_4', '3_4', '3_8'], max_cells=3), porder=st.just(1),
        iorder=st.just(2), seed=st.integers(0, 10 ** 6),
        terms=st.sampled_from([[0, 2], [0, 3], [0, 1, 2], [1, 3], [0, 1, 2, 3]])))


SUBS = [
    Sub('solutions', bvp_case, bvp_run_, 10, 300),
    Sub('formulations', ul_case, ul_run, 40, 2500),
    Sub('parameters', lambda item: base_case(item), ad_run, 3, 200,
        items=sorted(k for k in SPECS if SPECS[k]['name'].endswith('_ad'))),
    Sub('weak', lambda item: base_case(item), weak_run, 4, 300, items=sorted(SPECS)),
    Sub('stress', lambda item: stress_case(item), stress_run, 6, 300, items=sorted(
        k for k in STRESS if not k.rstrip("'").endswith('_ad'))),
]
