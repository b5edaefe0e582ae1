"""T03: multilinear (Einstein notation) terms for all backends and layouts."""
import numpy as np
import hypothesis.strategies as st

import gen
import tm
import t01
from harness import Sub, check, close
from t01 import (Ctx, E, TERMS, build, col, conv, ddot, dot, eval_slots, evaluable, full, make_geo,
                 mv, sc, zero_terms)

from sfepy.discrete import FieldVariable, Function, Material
from sfepy.discrete.evaluate import eval_equations

PROP = 'T03'
RULE = ('Cases: multilinear term x backend x layout x path optimization x mesh x region x fields x '
        'real or complex states x constant or variable materials x repeated evaluations with new '
        'data and switched backends.  Oracle: the documented integrand (those of the classical '
        'terms) evaluated over own mappings.  Non-trivial: non-zero reference on more cells.')
ASSUMPTIONS = ['layouts are permutations of the documented letters',
               'wedges are not supported by the terms (their declared geometries)']

BACKENDS = ['numpy', 'numpy_loop', 'numpy_qloop', 'opt_einsum', 'opt_einsum_loop',
            'opt_einsum_qloop', 'jax', 'jax_vmap', 'dask_single', 'dask_threads',
            'opt_einsum_dask_single', 'opt_einsum_dask_threads']

DE = {}


def D(name, args, fun, kinds='c', mode='weak', dims=(1, 2, 3), nl=False, key=None, term_mode=None,
      matrix=True):
    slots = []
    for x in args.split():
        k, sh = x.split(':', 1)
        slots.append((k, tuple(int(s) if s.isdigit() else s for s in sh.split(','))))
    key = (key or name) + '-' + ''.join(k[0] for k, _ in slots)
    while key in DE:
        key += "'"
    DE[key] = dict(name=name, slots=slots, fun=fun, kinds=kinds, mode=mode, dims=dims, nl=nl,
                   term_mode=term_mode)


def strain_voigt(a, dim):
    """Strain (engineering) of displacement gradients in vectors of rows: (..., D2)."""
    g = a.reshape(a.shape[:-1] + (dim, dim))
    return np.stack([g[..., i, i] if i == j else g[..., i, j] + g[..., j, i]
                     for i, j in tm.SYM[dim]], -1)


def sg(m, dim, S):
    return m.reshape(m.shape[:-2] + (dim, S, dim, S))


def grad_strain(w, dim):
    """e_I,k of a vector of displacement gradients: (..., k, I)."""
    return strain_voigt(w.grad, dim)


# Classical counterparts.
for key, sp in list(TERMS.items()):
    nm = sp['name']
    if nm in ('dw_laplace', 'dw_dot', 'dw_s_dot_mgrad_s', 'dw_non_penetration_p', 'dw_div_grad',
              'dw_convect', 'dw_lin_convect', 'dw_div', 'dw_stokes', 'dw_lin_elastic',
              'dw_nonsym_elastic', 'dw_diffusion', 'dw_surface_ltr', 'dw_integrate'):
        if key.startswith('dw_dot-') and ('vn' in key or 'nv' in key):
            continue
        dk = 'de_' + key[3:]
        DE[dk] = dict(sp, name='de_' + nm[3:])
        DE[dk].update(term_mode=None)
for kk, v, s in (('weak', 'v', 's'), ('eval', 'p', 'p')):
    M = dict(mode=kk)
    D('de_convect', 'om:1,1 %s:D %s:D' % (v, s),
      lambda g, c, v, u: c[..., 0, 0] * dot(conv(u.val, u), v.val), nl=True, **M)
    D('de_stokes_traction', 'om:1,1 %s:D %s:D' % (v, s),
      lambda g, c, v, u: c[..., 0, 0] * dot(v.val, E('...d,...dc->...c', g.nn, u.grad)), 'e',
      dims=(2, 3), **M)
    D('de_stokes_traction', '%s:D %s:D' % (v, s),
      lambda g, v, u: dot(v.val, E('...d,...dc->...c', g.nn, u.grad)), 'e', dims=(2, 3), **M)
    D('de_surface_flux', 'm:D,D %s:1 %s:1' % (v, s),
      lambda g, K, q, p: q.s * dot(g.nn, mv(K, p.ds)), 'e', dims=(2, 3), **M)
    D('de_surface_piezo_flux', 'm:D,S %s:1 %s:D' % (v, s),
      lambda g, c, q, u: q.s * dot(g.nn, mv(c, u.strain)), 'e', dims=(2, 3), **M)
    D('de_m_flexo', '%s:D %s:D2' % (v, s),
      lambda g, v, a: dot(np.swapaxes(v.grad, -1, -2).reshape(v.grad.shape[:-2] + (-1,)), a.val),
      dims=(2, 3), **M)
    D('de_m_sg_elastic', 'm:SD,SD %s:D2 %s:D2' % (v, s),
      lambda g, a, v, w: E('...kIlJ,...kI,...lJ->...', sg(a, v.grad.shape[-2], a.shape[-1]
                                                       // v.grad.shape[-2]),
                           grad_strain(v, v.grad.shape[-2]), grad_strain(w, v.grad.shape[-2])),
      dims=(2,), **M)
    D('de_m_flexo_coupling', 'm:D,SD %s:D2 %s:1' % (v, s),
      lambda g, f, w, p: E('...jkI,...kI,...j->...', f.reshape(f.shape[:-1] + (
          f.shape[-2], -1)), grad_strain(w, w.grad.shape[-2]), p.ds), dims=(2,), **M)
    D('de_s_dot_mgrad_s', 'm:D,1 p:1 p:1', lambda g, y, q, p: q.s * dot(y[..., 0], p.ds),
      mode='eval')
D('de_surface_flux', 'm:D,D s:1 v:1', lambda g, K, p, q: p.s * dot(g.nn, mv(K, q.ds)), 'e',
  dims=(2, 3))
D('de_surface_piezo_flux', 'm:D,S s:1 v:D', lambda g, c, p, v: p.s * dot(g.nn, mv(c, v.strain)),
  'e', dims=(2, 3))
D('de_m_flexo', 's:D v:D2',
  lambda g, v, a: dot(np.swapaxes(v.grad, -1, -2).reshape(v.grad.shape[:-2] + (-1,)), a.val),
  dims=(2, 3))
D('de_m_flexo_coupling', 'm:D,SD s:D2 v:1',
  lambda g, f, w, p: E('...jkI,...kI,...j->...', f.reshape(f.shape[:-1] + (
      f.shape[-2], -1)), grad_strain(w, w.grad.shape[-2]), p.ds), dims=(2,))
for c in ('om:1,1', ''):
    D('de_div', c + ' p:D', lambda g, *a: (a[0][..., 0, 0] if len(a) == 2 else 1) * a[-1].div,
      mode='eval')
D('de_lin_convect', 'p:D p:D p:D', lambda g, v, w, u: dot(conv(w.val, u), v.val), mode='eval')
KEYS = sorted(DE)


def set_backend(eqs, case, name):
    lay = None
    if case['layout']:
        r = np.random.RandomState(case['layout'])
        lay = ''.join(r.permutation(list('cqgvd0')))
    # 'optimal' paths take exponential time in the number of operands.
    opt = [True, 'greedy', True, False if case['mesh']['kind'][0] != '3' else True][case['opt']]
    if 'opt_einsum' in name:
        opt = [True, 'greedy', 'auto', 'dp'][case['opt']]
    elif 'jax' in name:
        opt = [True, 'greedy', True, 'greedy'][case['opt']]
    for eq in eqs:
        for t in eq.terms:
            if hasattr(t, 'set_backend'):
                t.set_backend(backend=name, layout=lay, optimize=opt)


def run_de(case):
    key = case['key']
    spec = DE[key]
    dim = int(case['mesh']['kind'][0])
    kind = spec['kinds'][case['ik'] % len(spec['kinds'])]
    if dim not in spec['dims']:
        return {'nontrivial': False, 'classes': ['outside']}
    ctx = Ctx(case, kind)
    coef = [1.0, -1.0, 2.5, -0.75][case['coef']]
    slots, mats, variables, expr = build(ctx, spec, case['vmat'], coef)
    anyf = next(s[1][0] for s in slots if s[0] in ('v', 's', 'p'))
    geo = make_geo(ctx, kind, anyf)
    weak = spec['mode'] == 'weak'
    fun = spec['fun']
    pick_fun = fun
    if weak:
        variables = list(variables)
        zero = zero_terms(ctx, slots, variables)
    else:
        zero = ''
    nz = False
    rs = np.random.RandomState(case['seed'] + 17)
    eqs = None
    sts = [i for i, s in enumerate(slots) if s[0] in ('s', 'p')]
    # References of all evaluations first: evaluating the bases resets the field data.
    plan = []
    for rep, bname in enumerate(case['backends']):
        if rep:
            for i in sts:
                f, nc, d, var = slots[i][1]
                d = rs.uniform(-1, 1, len(d)) + (1j * rs.uniform(-1, 1, len(d)) if
                                                 case['cplx'] else 0)
                slots[i] = (slots[i][0], (f, nc, d, var))
        a, vi, _ = eval_slots(ctx, slots, geo)
        data = [slots[i][1] for i in sts]
        if weak:
            loc = tm.integrate(pick_fun(geo, *a), geo)[:, :, 0] * coef
            mats_ = []
            for i in sts:
                if slots[i][0] != 's' or spec['nl']:
                    continue
                a, vi, ui = eval_slots(ctx, slots, geo, diff=i)
                mats_.append((slots[i][1][3].name, ui, tm.integrate(fun(geo, *a), geo) * coef))
            plan.append((bname, data, vi, loc, mats_))
        else:
            f = fun(geo, *a) * coef
            el = (f * geo.w[:, :, None, None]).sum((1, 2, 3))
            plan.append((bname, data, f.reshape(len(el), -1), el, None))
    # Two terms of the equation share the variables.
    expr += ' + 1.5 * ' + expr.split('*', 1)[1].strip()
    fac = (coef + 1.5) / coef
    eqs, evars = evaluable(ctx, expr + zero, mats, variables, 'weak' if weak else 'eval')
    for bname, data, vi, loc, mats_ in plan:
        qpv = vi
        loc = loc * fac
        mats_ = [(un, ui, m * fac) for un, ui, m in mats_ or ()]
        set_backend(eqs, case, bname)
        tag = '%s, backend %s' % (expr, bname)
        for f, nc, d, var in data:
            evars[var.name].set_data(d.copy())
        if weak:
            off = {n: evars.di.indx[n].start for n in evars.di.indx}
            vs = next(s[1] for s in slots if s[0] == 'v')
            ref = np.zeros(evars.di.n_dof_total, dtype=ctx.dtype)
            np.add.at(ref, off[vs[3].name] + vi, loc)
            sca = max(1, np.abs(ref).max())
            nz = nz or np.abs(ref).max() > 1e-10
            vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
            close(vec, ref, 1e-9, 1e-11 * sca, 'residual of ' + tag)
            if mats_:
                mref = np.zeros((len(ref), len(ref)), dtype=ctx.dtype)
                for un, ui, m in mats_:
                    np.add.at(mref, (off[vs[3].name] + vi[:, :, None], off[un] + ui[:, None, :]),
                              m)
                mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
                close(mtx.toarray(), mref, 1e-9, 1e-11 * max(1, np.abs(mref).max()),
                      'matrix of ' + tag)
            elif spec['nl']:
                mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
                # Quadratic in the state: K u = 2 r.
                u = np.zeros(len(ref), dtype=ctx.dtype)
                for f, nc, d, var in data:
                    u[evars.di.indx[var.name]] = d
                close(mtx @ u, 2 * ref, 1e-9, 1e-10 * sca, 'tangent of ' + tag)
        else:
            sca = max(1, np.abs(loc).max())
            nz = nz or np.abs(loc).max() > 1e-10
            for mode in np.random.RandomState(case['seed']).permutation(
                    ['eval', 'el_eval', 'el_avg', 'qp']):
                got = np.asarray(eval_equations(eqs, evars, mode=mode, verbose=False))
                ref = (loc.sum() if mode == 'eval' else loc if mode == 'el_eval'
                       else loc / geo.w.sum(1) if mode == 'el_avg' else fac * qpv)
                close(got.reshape(np.shape(ref)), ref, 1e-9, 1e-10 * max(1, np.abs(ref).max()),
                      '%s of %s' % (mode, tag))
    return {'nontrivial': bool(nz) and len(geo.cells) > 1,
            'classes': [spec['name'] + '-' + kind, ctx.g, 'mode-' + spec['mode'],
                        'cplx%d' % case['cplx'], 'layout%d' % bool(case['layout'])]
            + ['backend-' + b for b in case['backends']]}


def strat_de(key):
    spec = DE[key]
    kinds = [k for k in ['1_2', '2_3', '2_4', '3_4', '3_8'] if int(k[0]) in spec['dims']]
    fams = ['lagrange', 'lagrange', 'serendipity', 'lobatto']
    if spec['kinds'] != 'c':
        fams = fams[:3]
    return st.fixed_dictionaries(dict(
        key=st.just(key), mesh=gen.cases(kinds, max_cells=2), ik=st.integers(0, 3),
        coef=st.integers(0, 3), vmat=st.integers(0, 1), sub=st.integers(0, 1),
        fsub=st.integers(0, 1), part=st.integers(0, 1), order=st.integers(1, 2),
        iorder=st.integers(1, 3), mixed=st.integers(0, 1), fam=st.sampled_from(fams),
        cplx=st.integers(0, 1), layout=st.one_of(st.just(0), st.integers(1, 10 ** 6)),
        opt=st.integers(0, 3), backends=st.lists(st.sampled_from(
            BACKENDS[:6] * 4 + BACKENDS[6:]), min_size=1, max_size=3),
        seed=st.integers(0, 10 ** 6)))



# Tensor-valued integrals in all evaluation modes.
def _vec(a):
    return a.reshape(a.shape[:4] + (-1,))


VALS = {
    'cauchy': ('de_cauchy_stress', [('m', ('S', 'S')), ('p', ('D',))],
               lambda g, D, w: mv(D, w.strain)),
}
for nm, sh in (('s', (1,)), ('v', ('D',))):
    VALS['grad-' + nm] = ('de_grad', [('p', sh)], lambda g, w: _vec(np.swapaxes(w.grad, -1, -2)))
    VALS['cgrad-' + nm] = ('de_grad', [('om', (1, 1)), ('p', sh)],
                           lambda g, c, w: c[..., 0] * _vec(np.swapaxes(w.grad, -1, -2)))
    for k, s2 in (('v', ('D', 1)), ('t', ('D', 'D'))):
        VALS['%sgrad-%s' % (k, nm)] = (
            'de_grad', [('om', s2), ('p', sh)],
            lambda g, c, w: _vec(E('...jk,...ji->...ik', c, w.grad)))


def run_vals(case):
    name, sl, fun = VALS[case['key']]
    spec = dict(name=name, slots=sl)
    ctx = Ctx(case, 'c')
    coef = [1.0, -1.0, 2.5, -0.75][case['coef']]
    slots, mats, variables, expr = build(ctx, spec, case['vmat'], coef)
    geo = make_geo(ctx, 'c', next(s[1][0] for s in slots if s[0] == 'p'))
    plan, rs = [], np.random.RandomState(case['seed'] + 17)
    for rep, bname in enumerate(case['backends']):
        if rep:
            f, nc, d, var = slots[-1][1]
            slots[-1] = ('p', (f, nc, rs.uniform(-1, 1, len(d)) + case['cplx'] * 1j, var))
        a, _, _ = eval_slots(ctx, slots, geo)
        f = coef * fun(geo, *a)[:, :, 0, 0]
        plan.append((bname, slots[-1][1], f))
    eqs, evars = evaluable(ctx, expr, mats, variables, 'eval')
    for bname, (_, _, d, var), f in plan:
        set_backend(eqs, case, bname)
        evars[var.name].set_data(d.copy())
        el = np.einsum('cqk,cq->ck', f, geo.w)
        refs = {'eval': el.sum(0), 'el_eval': el, 'qp': f, 'el_avg': el / geo.w.sum(1)[:, None]}
        for mode in np.random.RandomState(case['seed']).permutation(sorted(refs)):
            got = np.asarray(eval_equations(eqs, evars, mode=mode, verbose=False))
            ref = refs[mode]
            close(got.reshape(ref.shape), ref, 1e-9, 1e-10 * max(1, np.abs(ref).max()),
                  '%s of %s, backend %s' % (mode, expr, bname))
    return {'nontrivial': len(geo.cells) > 1 and np.abs(f).max() > 1e-10,
            'classes': [case['key'], ctx.g] + ['backend-' + b for b in case['backends']]}


def strat_vals(key):
    fams = ['lagrange', 'lagrange', 'serendipity', 'lobatto']
    return st.fixed_dictionaries(dict(
        key=st.just(key), mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2),
        coef=st.integers(0, 3), vmat=st.integers(0, 1), sub=st.integers(0, 1),
        fsub=st.integers(0, 1), part=st.just(0), order=st.integers(1, 2),
        iorder=st.integers(1, 3), mixed=st.just(0), fam=st.sampled_from(fams),
        cplx=st.integers(0, 1), layout=st.one_of(st.just(0), st.integers(1, 10 ** 6)),
        opt=st.integers(0, 3), backends=st.lists(st.sampled_from(
            BACKENDS[:6] * 4 + BACKENDS[6:]), min_size=1, max_size=3),
        seed=st.integers(0, 10 ** 6)))


# Mass matrices: lumping and reciprocal mass matrices.
def run_mass(case):
    ctx = Ctx(case, 'c')
    rs, dim = ctx.rs, ctx.dim
    if dim == 1 and case['fam'] == 'serendipity':
        case = dict(case, fam='lagrange')
    f = ctx.field('f', dim)
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    d = rs.uniform(-1, 1, f.n_nod * dim)
    u.set_data(d)
    rho, b = 0.5 + rs.rand(), rs.uniform(-0.4, 0.4, dim)
    dens = lambda x: rho * (1 + (case['vmat'] * (np.sin(x @ b))) ** 2)[:, None, None]
    lumping = case['lump']
    beta = [0.0, 0.3, 0.8, 1.0][case['beta']]

    def get(ts, coors, mode=None, **kw):
        if mode == 'qp':
            return {'rho': dens(coors)}
    mats = [Material('m', function=Function('fm', get)) if case['vmat'] else
            Material('m', values={'rho': np.full((1, 1), rho)}),
            Material('n', values={'.lumping': lumping, '.beta': beta})]
    tmode = [None, 'DPM', 'RMM'][case['tmode']]
    geo = make_geo(ctx, 'c', f)
    C, Q = geo.w.shape
    vs, vi = tm.slot_basis(geo, f, ctx.fcells, dim, True)
    us, ui = tm.slot_basis(geo, f, ctx.fcells, dim, False)
    r = dens(geo.x.reshape(C * Q, -1)).reshape(C, Q, 1, 1)
    mc = tm.integrate(r * np.einsum('...i,...i->...', vs.val, us.val), geo)
    lump = 'row_sum' if tmode and lumping == 'none' else lumping
    if lump == 'row_sum':
        ml = mc.sum(2)
    elif lump == 'hrz':
        dg = np.einsum('cii->ci', mc)
        ml = dg * ((r[:, :, 0, 0] * geo.w).sum(1) / (dg.sum(1) / dim))[:, None]
    else:
        ml = None
    bet = 1.0 if tmode == 'DPM' else 0.0 if lump == 'none' else beta
    A = mc.copy()
    if bet:
        A = (1 - bet) * mc + bet * np.einsum('ci,ij->cij', ml, np.eye(mc.shape[1]))
    if tmode == 'RMM':
        s = np.linalg.svd(A, compute_uv=False)
        if s.min() < 1e-6 * s.max():
            return {'nontrivial': False, 'classes': ['singular']}
        L = np.einsum('ci,ij->cij', ml, np.eye(mc.shape[1]))
        A = L @ np.linalg.inv(A) @ L
    coef = [1.0, -1.0, 2.5, -0.75][case['coef']]
    n = len(d)
    ref = np.zeros((n, n))
    np.add.at(ref, (vi[:, :, None], ui[:, None, :]), coef * A)
    expr = '%r * de_mass.i.%s(m.rho, n.lumping, n.beta, v, u)' % (coef, ctx.region.name)
    eqs, evars = evaluable(ctx, expr, mats, [u, v], 'weak')
    sca = max(np.abs(ref).max(), 1e-3)
    tag = '%s, %s, beta %s, term mode %s' % (expr, lumping, beta, tmode)
    for k in range(2):
        mtx = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', term_mode=tmode,
                             verbose=False)
        close(mtx.toarray(), ref, 1e-8, 1e-9 * sca, 'matrix of ' + tag)
        vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', term_mode=tmode,
                             verbose=False)
        close(vec, ref @ d, 1e-8, 1e-9 * sca, 'residual of ' + tag)
        d = rs.uniform(-1, 1, n)
        evars['u'].set_data(d)
    return {'nontrivial': len(geo.cells) > 1, 'classes': [
        ctx.g, str(lumping), 'beta%s' % beta, 'mode-%s' % tmode, 'order%d' % case['order']]}


strat_mass = lambda _: st.fixed_dictionaries(dict(
    mesh=gen.cases(['1_2', '2_3', '2_4', '3_4', '3_8'], max_cells=2), coef=st.integers(0, 3),
    vmat=st.integers(0, 1), sub=st.integers(0, 1), fsub=st.integers(0, 1), part=st.just(0),
    order=st.integers(1, 2), iorder=st.integers(2, 4), mixed=st.just(0),
    fam=st.sampled_from(['lagrange', 'lagrange', 'serendipity']), beta=st.integers(0, 3),
    lump=st.sampled_from(['none', 'row_sum', 'hrz']), tmode=st.integers(0, 2),
    seed=st.integers(0, 10 ** 6)))


SUBS = [Sub('terms', strat_de, run_de, n=10, thorough=250, items=KEYS),
        Sub('values', strat_vals, run_vals, n=12, thorough=250, items=sorted(VALS)),
        Sub('mass', strat_mass, run_mass, n=80, thorough=1500)]
