"""T02: residuals, tangent matrices and evaluations of a term are consistent."""
import numpy as np
import hypothesis.strategies as st

import gen
import t01
import t03
from harness import Sub, Skip, check, close
from fe import fun_region, facet_region, pick
from t01 import Ctx, TERMS, build, evaluable, zero_terms

from sfepy.discrete import FieldVariable, Material, Function
from sfepy.discrete.evaluate import eval_equations
from sfepy.terms import term_table

PROP = 'T02'
RULE = ('Cases: term x mesh x region x fields x orders x materials x states, several states per '
        'evaluable.  Oracle: central differences of the assembled residual, matrix times state '
        'for linear terms, evaluation with the function in place of the virtual one, sums over '
        'disjoint regions, scaled material multipliers.  Non-trivial: non-zero residual or matrix.')
ASSUMPTIONS = ['states of large deformation terms keep the deformation gradient positive',
               'contact states away from the kinks of the contact laws']

SPECS = {}


def W(name, args, kinds='c', dims=(1, 2, 3), nl=True, amp=0.05, lin_mat=None, key=None,
      geoms=None, extra=None):
    slots = []
    for x in args.split():
        k, sh = x.split(':', 1)
        slots.append((k, tuple(int(s) if s.isdigit() else s for s in sh.split(','))))
    key = key or name
    while key in SPECS:
        key += "'"
    SPECS[key] = dict(name=name, slots=slots, kinds=kinds, dims=dims, nl=nl, amp=amp,
                      lin_mat=lin_mat, geoms=geoms, mode='weak', fun=None)


for key, sp in t01.TERMS.items():
    if sp['mode'] == 'weak':
        SPECS[key] = dict(sp, amp=1.0, lin_mat=next(
            (i for i, (k, sh) in enumerate(sp['slots']) if k == 'om' and sh == (1, 1)), None),
            geoms=None)
for key, sp in t03.DE.items():
    if sp['mode'] == 'weak':
        SPECS[key] = dict(sp, amp=1.0, lin_mat=next(
            (i for i, (k, sh) in enumerate(sp['slots']) if k == 'om' and sh == (1, 1)), None),
            geoms=None)
SPECS['dw_convect_v_grad_s']['nl'] = True
D23 = (2, 3)
for n in ('tl',):
    W('dw_%s_he_neohook' % n, 'P:1,1 v:D s:D', dims=D23, lin_mat=0)
    W('dw_%s_he_mooney_rivlin' % n, 'P:1,1 v:D s:D', dims=D23, lin_mat=0)
    W('dw_%s_bulk_penalty' % n, 'P:1,1 v:D s:D', dims=D23, lin_mat=0)
    W('dw_%s_bulk_pressure' % n, 'v:D s:D s:1', dims=D23)
    W('dw_%s_volume' % n, 'v:1 s:D', dims=D23)
W('dw_tl_he_svk', 'sm:S,S v:D s:D', dims=D23)
W('dw_tl_he_genyeoh', 'P:1,6 v:D s:D', dims=(3,))
W('dw_tl_he_genyeoh', 'P:1,2 v:D s:D', dims=(3,))
W('dw_tl_he_ogden', 'P:1,2 v:D s:D', dims=(3,))
W('dw_tl_bulk_active', 'P:1,1 v:D s:D', dims=D23, lin_mat=0)
W('dw_tl_fib_a', 'P:1,1 P:1,1 P:1,1 dir:D,1 P:1,1 v:D s:D', dims=D23, lin_mat=0)
W('dw_tl_fib_e', 'P:1,1 P:1,1 P:1,1 dir:D,1 v:D s:D', dims=D23, lin_mat=0)
W('dw_tl_fib_spe', 'P:1,1 P:1,1 P:1,1 dir:D,1 v:D s:D', dims=D23)
W('dw_tl_diffusion', 'P:1,1 P:1,1 v:1 s:1 p:D', dims=(1,), nl=False)
W('dw_tl_diffusion', 'm:D,D P:1,1 v:1 s:1 p:D', dims=D23, nl=False)
W('dw_tl_surface_traction', 'm:D,D v:D s:D', 'e', dims=D23)
W('dw_tl_surface_traction', 'v:D s:D', 'e', dims=D23)
W('dw_tl_membrane', 'P:1,1 P:1,1 P:1,1 v:D s:D', 'f', dims=(3,))
W('dw_mass_ad', 'P:1,1 v:D s:D', nl=False, amp=1.0, lin_mat=0)
W('dw_mass_ad', 'P:1,1 v:1 s:1', nl=False, amp=1.0, lin_mat=0)
W('dw_lin_elastic_l_ad', 'P:1,1 P:1,1 v:D s:D', nl=False, amp=1.0, dims=D23)
W('dw_lin_elastic_yp_ad', 'P:1,1 P:1,1 v:D s:D', nl=False, amp=1.0, dims=D23)
W('dw_tl_he_neohook_ad', 'P:1,1 v:D s:D', dims=(3,), lin_mat=0)
W('dw_tl_he_ogden_ad', 'P:1,1 P:1,1 v:D s:D', dims=(3,))
KEYS = sorted(SPECS)


def run_term(case):
    try:
        return run_term_(case)
    except ValueError as exc:
        # Non-positive Jacobian of the deformation.
        if 'warp violation' in str(exc):
            raise Skip(str(exc))
        raise


def run_term_(case):
    spec = SPECS[case['key']]
    dim = int(case['mesh']['kind'][0])
    kind = spec['kinds'][case['ik'] % len(spec['kinds'])]
    if dim == 1 and kind == 'e':
        kind = spec['kinds'][0]
    if dim not in spec['dims']:
        return {'nontrivial': False, 'classes': ['outside']}
    name = spec['name']
    if name == 'dw_tl_membrane':
        # Flat faces, linear approximation.
        case = dict(case, order=1, fam='lagrange')
        if case['mesh']['kind'] == '3_8':
            case['mesh'] = dict(case['mesh'], jit=0)
    ctx = Ctx(case, kind)
    coef = [1.0, -1.0, 2.5, -0.75][case['coef']]
    slots, mats, variables, expr = build(ctx, spec, case['vmat'], coef)
    variables = list(variables)
    zero = zero_terms(ctx, slots, variables)
    sts = [s[1] for s in slots if s[0] == 's']
    vs = next(s[1] for s in slots if s[0] == 'v')
    rs = np.random.RandomState(case['seed'] + 29)
    base = expr.split('*', 1)[1].strip()
    # Disjoint parts of the region.
    reg = ctx.region
    if kind == 'c':
        cells = np.sort(np.asarray(reg.cells))
        m = pick(case['seed'] + 5, len(cells), 0.5)
        a, b = np.zeros(len(ctx.conn), bool), np.zeros(len(ctx.conn), bool)
        a[cells[m]] = True
        b[cells[~m]] = True
        parts = [fun_region(ctx.dom, 'PA', a), fun_region(ctx.dom, 'PB', b)] \
            if a.any() and b.any() else None
    else:
        f = np.asarray(reg.facets if dim > 1 else reg.vertices)
        m = pick(case['seed'] + 5, len(f), 0.5)
        if m.any() and not m.all() and dim > 1:
            parts = [facet_region(ctx.dom, 'PA', list(f[m]), parent='Sub'),
                     facet_region(ctx.dom, 'PB', list(f[~m]), parent='Sub')]
        else:
            parts = None
    eqs, evars = evaluable(ctx, expr + zero, mats, variables, 'weak')
    n = evars.di.n_dof_total

    def setu(e, x):
        for f, nc, d, var in sts:
            e[var.name].set_data(x[evars.di.indx[var.name]].copy())

    def vec(q, e, x):
        setu(e, x)
        return eval_equations(q, e, mode='weak', dw_mode='vector', verbose=False)

    def mtx(q, e, x):
        setu(e, x)
        return eval_equations(q, e, mode='weak', dw_mode='matrix', verbose=False).toarray()

    nz = False
    u = np.zeros(n)
    smask = np.zeros(n)
    for f, nc, d, var in sts:
        u[evars.di.indx[var.name]] = d
        smask[evars.di.indx[var.name]] = 1
    amp = spec['amp']
    us = []
    for rep in range(case['reps']):
        if rep:
            u = rs.uniform(-1, 1, n) * amp * smask
        K = None
        if sts and case['mfirst']:
            K = mtx(eqs, evars, u)
        r = vec(eqs, evars, u)
        if not np.isfinite(r).all():
            raise Skip('not finite')
        us.append((u.copy(), r.copy()))
        if not sts:
            nz = nz or np.abs(r).max() > 1e-10
            continue
        if K is None:
            K = mtx(eqs, evars, u)
        sca = max(np.abs(K).max(), 1e-6)
        nz = nz or sca > 1e-5
        d = rs.uniform(-1, 1, n) * smask
        affine = name in ('dw_bc_newton',)
        if spec['nl']:
            h = 1e-5 * amp * (0.1 if name == 'dw_tl_fib_spe' else 1)
            fd = (vec(eqs, evars, u + h * d) - vec(eqs, evars, u - h * d)) / (2 * h)
            fd2 = (vec(eqs, evars, u + 2 * h * d) - vec(eqs, evars, u - 2 * h * d)) / (4 * h)
            err = np.abs(fd - fd2).max()
            tol = 1e-6 * sca + 5 * err + 1e-10 * max(1, np.abs(r).max()) / h * 1e-3
            check(tol < 1e-2 * max(sca, np.abs(fd).max()) or sca < 1e-5,
                  'inaccurate difference for %s', expr)
            close(K @ d, fd, 0, tol, 'tangent of ' + expr)
        else:
            x0 = vec(eqs, evars, 0 * u) if affine else 0.0
            close(K @ u, r - x0, 1e-9, 1e-10 * max(sca * max(1, np.abs(u).max()),
                                                  np.abs(x0).max() if affine else 0),
                  'matrix times state of ' + expr)
        # Repeated assembling at the same state gives the same.
        close(vec(eqs, evars, u), r, 1e-12, 1e-13 * max(1, np.abs(r).max()),
              'repeated residual of ' + expr)
    u, r = us[-1]
    rsc = max(1e-6, np.abs(r).max())
    K = mtx(eqs, evars, u) if sts else None
    classes = [name + '-' + kind, ctx.g]
    # Additivity.
    if parts is not None:
        e2 = ' + '.join('%r * %s' % (coef, base.replace('.%s(' % reg.name, '.%s(' % p.name))
                        for p in parts)
        q2, v2 = evaluable(ctx, e2 + zero, mats, variables, 'weak')
        close(vec(q2, v2, u), r, 1e-10, 1e-11 * rsc, 'residual over disjoint regions: ' + e2)
        if sts:
            close(mtx(q2, v2, u), K, 1e-10, 1e-11 * max(1e-6, np.abs(K).max()),
                  'matrix over disjoint regions: ' + e2)
        classes.append('parts')
    # Linear in the material multiplier.
    im = spec['lin_mat']
    if im is not None:
        c = [2.0, -0.5, 3.25][case['seed'] % 3]
        if spec['slots'][im][0] == 'P':
            c = abs(c)
        mname = 'm%d' % im
        fun = slots[im][1]

        def get(ts, coors, mode=None, **kw):
            if mode == 'qp':
                return {'val': c * fun(coors)}
        if case['vmat']:
            mm = Material(mname, function=Function('g' + mname, get))
        else:
            mm = Material(mname, values={'val': c * fun(np.zeros((1, dim)))[0]})
        mats2 = [m if m.name != mname else mm for m in mats]
        q2, v2 = evaluable(ctx, expr + zero, mats2, variables, 'weak')
        # Affine terms do not have such multipliers.
        close(vec(q2, v2, u), c * r, 1e-10, 1e-11 * rsc, 'material multiplied by %s: %s'
              % (c, expr))
        classes.append('multiplier')
    # Evaluation.
    cls = term_table[name]
    at = cls.arg_types
    if isinstance(at[0], tuple) and 'eval' in cls.modes \
            and case['key'].rstrip("'") not in ('dw_dot-vn', 'dw_dot-nv') and name != 'dw_bc_newton':
        w = rs.uniform(-1, 1, vs[0].n_nod * vs[1])
        pars = [FieldVariable('pv', 'parameter', vs[0], primary_var_name='(set-to-None)')]
        pars[0].set_data(w)
        e2 = base.replace('(v,', '(pv,').replace(', v,', ', pv,').replace(', v)', ', pv)') \
            .replace('(v)', '(pv)')
        for f, nc, d, var in sts:
            p = FieldVariable('p' + var.name, 'parameter', f, primary_var_name='(set-to-None)')
            p.set_data(u[evars.di.indx[var.name]].copy())
            pars.append(p)
            for a, b in (('(', ','), (', ', ','), (', ', ')'), ('(', ')')):
                e2 = e2.replace(a + var.name + b, a + p.name + b)
        old = [v for v in variables if v.is_parameter()]
        q2, v2 = evaluable(ctx, '%r * %s' % (coef, e2), mats, pars + old, 'eval')
        val = np.asarray(eval_equations(q2, v2, mode='eval', verbose=False))
        ww = np.zeros(n)
        ww[evars.di.indx[vs[3].name]] = w
        check(val.size == 1, '%s: evaluation of size %d', e2, val.size)
        close(val.ravel()[0], ww @ r, 1e-9, 1e-10 * rsc * n ** 0.5, 'evaluation of ' + e2)
        classes.append('eval')
    return {'nontrivial': bool(nz), 'classes': classes}


def strat_terms(key):
    spec = SPECS[key]
    big = spec['amp'] != 1.0
    kinds = [k for k in ['1_2', '2_3', '2_4', '3_4', '3_8'] if int(k[0]) in spec['dims']]
    fams = ['lagrange', 'lagrange', 'serendipity', 'lobatto']
    if spec['kinds'] != 'c':
        fams = fams[:3]
    return st.fixed_dictionaries(dict(
        key=st.just(key), mesh=gen.cases(kinds, max_cells=2), ik=st.integers(0, 3),
        coef=st.integers(0, 3), vmat=st.integers(0, 1 if not spec['name'].endswith('_ad') else 0),
        sub=st.integers(0, 1), fsub=st.integers(0, 1), part=st.integers(0, 1),
        order=st.integers(1, 2), iorder=st.integers(1, 2 if big else 3),
        mixed=st.integers(0, 1), fam=st.sampled_from(fams), reps=st.integers(1, 3), mfirst=st.integers(0, 1),
        seed=st.integers(0, 10 ** 6)))


SUBS = [Sub('terms', strat_terms, run_term, n=5, thorough=150, items=KEYS)]
