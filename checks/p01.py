"""P01: boundary value problems with polynomial solutions."""
import itertools

import numpy as np
import hypothesis.strategies as st

import gen
import pb
from harness import Sub, Skip, check, close
from tm import SYM

from sfepy.base.base import IndexedStruct
from sfepy.discrete import (Equation, Equations, FieldVariable, Function, Integral, Material,
                            Problem)
from sfepy.discrete.common.mappings import get_physical_qps
from sfepy.discrete.conditions import Conditions, EssentialBC, PeriodicBC
from sfepy.discrete.fem import FEDomain, Field
from sfepy.discrete.fem import periodic
from sfepy.solvers.ls import ScipyDirect
from sfepy.solvers.nls import Newton
from sfepy.terms import Term

PROP = 'P01'
RULE = ('Cases: linear problem (diffusion-advection-reaction, elasticity, Stokes, Biot, '
        'piezoelectricity) x random mesh x field order and basis x random polynomial solution of '
        'the order x random coefficients x random split of the boundary to Dirichlet, Neumann and '
        'Robin parts or periodic sides x solver options x declarative or interactive set-up. '
        'Oracle: the polynomial at quadrature points; the same problem on a renumbered mesh. '
        'Non-trivial: unknown DOFs and a non-constant solution.')
ASSUMPTIONS = ['well-conditioned discrete problems (condition number below 1e8)',
               'orders of integrals sufficient for the integrands']


class Poly:
    """Polynomial {exponents: coefficient}."""

    def __init__(self, d, dim):
        self.d, self.dim = {k: v for k, v in d.items() if v != 0}, dim

    def __call__(self, x):
        out = np.zeros(len(x))
        for e, c in self.d.items():
            out += c * np.prod(x ** np.array(e), axis=1)
        return out

    def diff(self, i):
        out = {}
        for e, c in self.d.items():
            if e[i]:
                f = tuple(v - (k == i) for k, v in enumerate(e))
                out[f] = out.get(f, 0) + c * e[i]
        return Poly(out, self.dim)

    def __add__(self, b):
        if not isinstance(b, Poly):
            b = Poly({(0,) * self.dim: b}, self.dim)
        out = dict(self.d)
        for e, c in b.d.items():
            out[e] = out.get(e, 0) + c
        return Poly(out, self.dim)

    __radd__ = __add__

    def __mul__(self, b):
        if not isinstance(b, Poly):
            return Poly({e: c * b for e, c in self.d.items()}, self.dim)
        out = {}
        for (e, c), (f, d) in itertools.product(self.d.items(), b.d.items()):
            g = tuple(i + j for i, j in zip(e, f))
            out[g] = out.get(g, 0) + c * d
        return Poly(out, self.dim)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, b):
        return self + (-1.0 * b)


def rpoly(rs, dim, deg, only=None):
    out = {}
    for e in itertools.product(range(deg + 1), repeat=dim):
        if sum(e) <= deg and (only is None or all(e[i] == 0 or i in only for i in range(dim))):
            out[e] = float(rs.uniform(-1, 1))
    return Poly(out, dim)


def values(polys):
    """Function of coordinates: (n, r, c)."""
    polys = [[q for q in (p if isinstance(p, list) else [p])] for p in polys]

    def f(x):
        return np.stack([np.stack([q(x) if isinstance(q, Poly) else np.full(len(x), float(q))
                                   for q in row], -1) for row in polys], 1)
    return f


def div(flux, dim):
    return sum((flux[i].diff(i) for i in range(dim)), Poly({}, dim))


def grad(u, dim):
    return [u.diff(i) for i in range(dim)]


def estrain(u, dim):
    """Engineering strain."""
    return [u[i].diff(i) if i == j else u[i].diff(j) + u[j].diff(i) for i, j in SYM[dim]]


def tens(s, dim):
    out = [[None] * dim for _ in range(dim)]
    for k, (i, j) in enumerate(SYM[dim]):
        out[i][j] = out[j][i] = s[k]
    return out


def spd(rs, n):
    a = rs.uniform(-1, 1, (n, n))
    return a @ a.T + 0.5 * np.eye(n)


def lin(A, v):
    """Matrix times polynomials."""
    return [sum((float(A[i, j]) * v[j] for j in range(len(v))), Poly({}, v[0].dim))
            for i in range(len(A))]


def setup(case, dim):
    """Solution polynomials, materials, and terms (sign, name, where, arguments)."""
    rs = np.random.RandomState(case['seed'] + 1)
    o = case['order']
    S = len(SYM[dim])
    kind = case['prob']
    only = None
    if case.get('periodic') is not None:
        only = [i for i in range(dim) if i != case['periodic']]
    # Boundary values of hierarchic bases are set in vertices only.
    rp = lambda deg: rpoly(rs, dim, min(deg, 1) if case['fam'] == 'lobatto' else deg, only)
    mats, terms, exact, orders = {}, [], {}, {}
    a = rp(1) * 0.2 + 1.5 if case['vark'] else Poly({(0,) * dim: 1.3}, dim)

    def mech(sig, extra=None):
        """Sources and tractions of a stress."""
        t = tens(sig, dim)
        f = [-1.0 * div(t[i], dim) for i in range(dim)]
        if extra:
            f = [x + y for x, y in zip(f, extra)]
        mats['f'] = values(f)
        mats['t'] = values(sig)
        terms.append(['a', -1, 'dw_volume_lvf', 'Omega', ['m.f', 'v']])
        terms.append(['a', -1, 'dw_surface_ltr', 'GN', ['m.t', 'v']])

    def scal(flux, extra=None, eq='b'):
        g = -1.0 * div(flux, dim)
        if extra is not None:
            g = g + extra
        mats['g'] = values([g])
        mats['h'] = values(flux)
        terms.append([eq, -1, 'dw_volume_lvf', 'Omega', ['m.g', 'q']])
        terms.append([eq, -1, 'dw_surface_ndot', 'GN', ['m.h', 'q']])
    if kind == 'diffusion':
        p = rp(o)
        K0 = spd(rs, dim)
        K = [[a * float(K0[i, j]) for j in range(dim)] for i in range(dim)]
        g = grad(p, dim)
        flux = [sum((K[i][j] * g[j] for j in range(dim)), Poly({}, dim)) for i in range(dim)]
        mats['K'] = values(K)
        terms.append(['b', 1, 'dw_diffusion', 'Omega', ['m.K', 'q', 'p']])
        extra = Poly({}, dim)
        if case['low'] & 1:
            r = float(rs.uniform(0.2, 1))
            mats['r'] = values([r])
            terms.append(['b', 1, 'dw_dot', 'Omega', ['m.r', 'q', 'p']])
            extra = extra + r * p
        if case['low'] & 2:
            c = [float(x) for x in rs.uniform(-1, 1, dim)]
            if only is not None:
                c = [ci if i in only else 0.0 for i, ci in enumerate(c)]
            mats['c'] = values(c)
            terms.append(['b', 1, 'dw_s_dot_mgrad_s', 'Omega', ['m.c', 'q', 'p']])
            extra = extra + sum((ci * gi for ci, gi in zip(c, g)), Poly({}, dim))
        if case['robin']:
            mats['al'] = values([float(rs.uniform(0.2, 2))])
            mats['po'] = values([p])
            terms.append(['b', 1, 'dw_bc_newton', 'GN', ['m.al', 'm.po', 'q', 'p']])
        scal(flux, extra)
        exact['p'], orders['p'] = [p], o
        return exact, orders, mats, terms
    u = [rp(o) for _ in range(dim)]
    exact['u'], orders['u'] = u, o
    e = estrain(u, dim)
    D = spd(rs, S)
    if kind == 'elasticity':
        sig = [a * s for s in lin(D, e)]
        mats['D'] = values([[a * float(D[i, j]) for j in range(S)] for i in range(S)])
        terms.append(['a', 1, 'dw_lin_elastic', 'Omega', ['m.D', 'v', 'u']])
        extra = None
        if case['low'] & 1:
            mats['r'] = values([0.7])
            terms.append(['a', 1, 'dw_dot', 'Omega', ['m.r', 'v', 'u']])
            extra = [0.7 * ui for ui in u]
        mech(sig, extra)
        return exact, orders, mats, terms
    if kind == 'stokes':
        p = rp(o - 1)
        exact['p'], orders['p'] = [p], o - 1
        nu = float(rs.uniform(0.5, 2))
        D = np.diag([2 * nu] * dim + [nu] * (S - dim))
        sig = lin(D, e)
        sig = [s - p if k < dim else s for k, s in enumerate(sig)]
        mats['D'] = values([[float(x) for x in row] for row in D])
        terms.append(['a', 1, 'dw_lin_elastic', 'Omega', ['m.D', 'v', 'u']])
        terms.append(['a', -1, 'dw_stokes', 'Omega', ['v', 'p']])
        mech(sig)
        mats['g'] = values([sum((u[i].diff(i) for i in range(dim)), Poly({}, dim))])
        terms.append(['b', 1, 'dw_stokes', 'Omega', ['u', 'q']])
        terms.append(['b', -1, 'dw_volume_lvf', 'Omega', ['m.g', 'q']])
        return exact, orders, mats, terms
    p = rp(case['order2'])
    exact['p'], orders['p'] = [p], case['order2']
    K = spd(rs, dim)
    g = grad(p, dim)
    mats['D'] = values([[float(x) for x in row] for row in D])
    mats['K'] = values([[float(x) for x in row] for row in K])
    terms.append(['a', 1, 'dw_lin_elastic', 'Omega', ['m.D', 'v', 'u']])
    terms.append(['b', 1, 'dw_diffusion', 'Omega', ['m.K', 'q', 'p']])
    if kind == 'biot':
        al = rs.uniform(-1, 1, S)
        mats['al'] = values([float(x) for x in al])
        sig = [s - float(x) * p for s, x in zip(lin(D, e), al)]
        terms.append(['a', -1, 'dw_biot', 'Omega', ['m.al', 'v', 'p']])
        terms.append(['b', 1, 'dw_biot', 'Omega', ['m.al', 'u', 'q']])
        mech(sig)
        scal(lin(K, g), sum((float(x) * y for x, y in zip(al, e)), Poly({}, dim)))
    else:
        G = rs.uniform(-1, 1, (dim, S))
        mats['G'] = values([[float(x) for x in row] for row in G])
        sig = [x - y for x, y in zip(lin(D, e), lin(G.T, g))]
        terms.append(['a', -1, 'dw_piezo_coupling', 'Omega', ['m.G', 'v', 'p']])
        terms.append(['b', 1, 'dw_piezo_coupling', 'Omega', ['m.G', 'u', 'q']])
        mech(sig)
        scal([x + y for x, y in zip(lin(K, g), lin(G, e))])
    return exact, orders, mats, terms


def material_function(mats):
    def get(ts, coors, mode=None, **kw):
        if mode == 'qp':
            return {k: f(coors) for k, f in mats.items()}
    return get


def box_mesh(case):
    """Box with matching opposite sides."""
    mc = dict(case['mesh'], jit=0, aff=0, drop=0)
    return gen.mesh(mc)[0]


def parts(case, mesh):
    """Dirichlet and Neumann facets of the boundary."""
    dim = mesh.dim
    rs = np.random.RandomState(case['seed'] + 2)
    n = rs.normal(size=dim)
    n /= np.linalg.norm(n)
    s = mesh.coors @ n
    lim = np.quantile(s, case['split'])
    if case['split'] == 1:
        lim = np.inf
    # Not too close to any vertex.
    vals = np.sort(np.unique(np.round(s, 9)))
    if np.isfinite(lim):
        k = min(np.searchsorted(vals, lim), len(vals) - 1)
        lim = vals[k] + 1e-6

    def sel(coors, domain=None):
        return np.where(coors @ n <= lim)[0]
    dom = FEDomain('aux', mesh)
    fun = {'sel': Function('sel', sel)}
    surf = dom.create_region('Surf', 'vertices of surface', 'facet')
    # Facets with all vertices selected.
    regs = region_defs(case, mesh)
    from sfepy.discrete.functions import Functions
    funs = Functions([fun['sel']] + [Function(k, f) for k, f in side_funs(case, mesh).items()])
    out = {}
    for name, (sdef, kind) in regs:
        out[name] = dom.create_region(name, sdef, kind, functions=funs, allow_empty=True)
    return sel, out, regs


def side_funs(case, mesh):
    ax = case.get('periodic')
    if ax is None:
        return {}
    x = mesh.coors[:, ax]
    lo, hi = x.min(), x.max()
    return {'lo': lambda coors, domain=None: np.where(np.abs(coors[:, ax] - lo) < 1e-9)[0],
            'hi': lambda coors, domain=None: np.where(np.abs(coors[:, ax] - hi) < 1e-9)[0]}


def region_defs(case, mesh):
    dim = mesh.dim
    op = 'vef'[dim - 1]
    regs = [('Surf', ('vertices of surface', 'facet'))]
    if case.get('periodic') is not None:
        # Dirichlet conditions on all the other sides.
        regs += [('SelLo', ('vertices by lo', 'facet')), ('SelHi', ('vertices by hi', 'facet')),
                 ('Lo', ('r.Surf *%s r.SelLo' % op, 'facet')),
                 ('Hi', ('r.Surf *%s r.SelHi' % op, 'facet')),
                 ('LoHi', ('r.Lo +%s r.Hi' % op, 'facet')),
                 ('GD', ('r.Surf -%s r.LoHi' % op, 'facet'))]
        return regs
    if case['split'] == 1:
        return regs + [('GD', ('copy r.Surf', 'facet'))]
    return regs + [('SelF', ('vertices by sel', 'facet')),
                   ('GD', ('r.Surf *%s r.SelF' % op, 'facet')),
                   ('GN', ('r.Surf -%s r.GD' % op, 'facet'))]


def iorder(case, dim, kind):
    o = case['order']
    if kind in ('2_4', '3_8'):
        # Derivatives of the geometry map.
        return min(2 * o + 3 + case['vark'], 19)
    return min(2 * o + 1 + case['vark'], 19)


def describe(case, mesh):
    dim = mesh.dim
    exact, orders, mats, terms = setup(case, dim)
    sel, regs, defs = parts(case, mesh)
    if case.get('periodic') is None and len(regs['GD'].vertices) == 0:
        raise Skip('no Dirichlet part')
    gn = 'GN' in regs and len(regs['GN'].vertices) > 0
    terms = [t for t in terms if t[3] != 'GN' or gn]
    if not gn:
        defs = [d for d in defs if d[0] != 'GN']
    return exact, orders, mats, terms, sel, defs, gn


PAIRS = {'u': 'v', 'p': 'q'}
AXES = 'xyz'


def match(case, dim):
    ax = case['periodic']
    if dim == 2:
        return 'match_%s_line' % AXES[1 - ax], [periodic.match_x_line, periodic.match_y_line][1 - ax]
    name = 'match_%s_plane' % AXES[ax]
    return name, getattr(periodic, name)


def dirichlet(polys):
    f = values(polys)

    def fun(ts, coor, **kw):
        return f(coor)[:, :, 0]
    return fun


def declarative(case, mesh, desc, opts):
    exact, orders, mats, terms, sel, defs, gn = desc
    dim = mesh.dim
    fields, variables, ebcs, funs = {}, {}, {}, {}
    for i, (n, p) in enumerate(sorted(exact.items())):
        fields['f' + n] = ('real', 'vector' if n == 'u' else 'scalar', 'Omega', orders[n], 'H1',
                           case['fam'])
        variables[n] = ('unknown field', 'f' + n, i)
        variables[PAIRS[n]] = ('test field', 'f' + n, n)
        funs['g' + n] = (dirichlet(p),)
        if desc_ebc(case, n):
            ebcs['e' + n] = ('GD', {n + '.all': 'g' + n})
    funs['sel'] = (sel,)
    funs['mat'] = (material_function(mats),)
    for k, f in side_funs(case, mesh).items():
        funs[k] = (f,)
    eqs = {}
    io = iorder(case, dim, case['mesh']['kind'])
    for eq, sign, name, reg, args in terms:
        if sign < 0 and case['rhs']:
            continue
        eqs[eq] = eqs.get(eq, '') + ' %s %s.i.%s(%s)' % (
            '-' if sign < 0 else '+' if eq in eqs else '', name, reg, ', '.join(args))
    for eq in list(eqs):
        # Known terms on the right-hand side.
        right = ' + '.join('%s.i.%s(%s)' % (name, reg, ', '.join(args))
                           for e, sign, name, reg, args in terms
                           if e == eq and sign < 0 and case['rhs'])
        eqs[eq] += ' = ' + (right or '0')
    conf = dict(regions=dict({'Omega': 'all'}, **dict(defs)), fields=fields, variables=variables,
                ebcs=ebcs, functions=funs, materials={'m': 'mat'}, integrals={'i': io},
                equations=eqs,
                solvers={'ls': (opts['ls'], opts.get('lsopts', {})),
                         'n': ('nls.newton', {'i_max': 2, 'eps_a': 1e-9, 'eps_r': 1.0,
                                              'is_linear': opts['linear']})},
                options={'ls': 'ls', 'nls': 'n'})
    if case.get('periodic') is not None:
        name, fun = match(case, dim)
        funs[name] = (fun,)
        conf['epbcs'] = {'per%s' % n: (['Lo', 'Hi'], {n + '.all': n + '.all'}, name)
                         for n in exact}
    prob = pb.problem(case['mesh'], conf, mesh=mesh)
    prob.time_update()
    if prob.get_variables().adi.n_dof_total == 0:
        raise Skip('no unknowns')
    prob.update_materials()
    prob.get_variables().init_state()
    n, cond = condition(prob)
    if not cond < 1e8:
        raise Skip('singular')
    status = IndexedStruct()
    vv = prob.solve(save_results=False, status=status)
    return prob, vv, status, n, cond


def desc_ebc(case, n):
    """Stokes pressures have no Dirichlet conditions with a Neumann part."""
    return not (case['prob'] == 'stokes' and n == 'p')


def interactive(case, mesh, desc):
    exact, orders, mats, terms, sel, defs, gn = desc
    dim = mesh.dim
    dom = FEDomain('domain', mesh)
    from sfepy.discrete.functions import Functions
    funs = Functions([Function('sel', sel)] +
                     [Function(k, f) for k, f in side_funs(case, mesh).items()])
    regs = {'Omega': dom.create_region('Omega', 'all')}
    for name, (sdef, kind) in defs:
        regs[name] = dom.create_region(name, sdef, kind, functions=funs)
    variables, ebcs, epbcs = {}, [], []
    for n, p in sorted(exact.items()):
        f = Field.from_args('f' + n, np.float64, 'vector' if n == 'u' else 1, regs['Omega'],
                            approx_order=orders[n], poly_space_basis=case['fam'])
        variables[n] = FieldVariable(n, 'unknown', f)
        variables[PAIRS[n]] = FieldVariable(PAIRS[n], 'test', f, primary_var_name=n)
        if desc_ebc(case, n):
            ebcs.append(EssentialBC('e' + n, regs['GD'],
                                    {n + '.all': Function('g' + n, dirichlet(p))}))
        if case.get('periodic') is not None:
            name, fun = match(case, dim)
            epbcs.append(PeriodicBC('per' + n, [regs['Lo'], regs['Hi']],
                                    {n + '.all': n + '.all'}, match=name))
    m = Material('m', function=Function('mat', material_function(mats)))
    integral = Integral('i', order=iorder(case, dim, case['mesh']['kind']))
    eqs = {}
    for eq, sign, name, reg, args in terms:
        t = Term.new('%s(%s)' % (name, ', '.join(args)), integral, regs[reg], m=m,
                     **{a: variables[a] for a in args if '.' not in a})
        t = sign * t if case['rhs'] else (-t if sign < 0 else t)
        eqs[eq] = t if eq not in eqs else eqs[eq] + t
    eqs = Equations([Equation('eq' + k, t) for k, t in eqs.items()])
    prob = Problem('p', equations=eqs, functions=Functions(
        [Function(*match(case, dim))]) if case.get('periodic') is not None else None)
    kw = {'epbcs': Conditions(epbcs)} if epbcs else {}
    prob.set_bcs(ebcs=Conditions(ebcs), **kw)
    status = IndexedStruct()
    prob.set_solver(Newton({'i_max': 2, 'eps_a': 1e-9, 'eps_r': 1.0},
                           lin_solver=ScipyDirect({}), status=status))
    return prob, prob.solve(status=status, save_results=False)


def condition(prob):
    vv = prob.get_variables()
    ev = prob.get_evaluator()
    m = ev.eval_tangent_matrix(vv.get_state(True).copy()).toarray()
    d = np.abs(m).max(1)
    if d.min() == 0:
        return len(m), np.inf
    return len(m), np.linalg.cond(m)


def compare(prob, vv, exact, order, what, tol):
    ie = Integral('ie', order=order)
    reg = prob.domain.regions['Omega']
    x = get_physical_qps(reg, ie).values
    x = x.reshape(-1, x.shape[-1])
    for n, p in exact.items():
        ref = values(p)(x)[..., 0]
        var = vv[n]
        got = var.evaluate('val', reg, ie, 'cell').reshape(len(x), -1)
        close(got, ref, tol, tol * max(1, np.abs(ref).max()), '%s %s' % (what, n), key='solution')
        g = var.evaluate('grad', reg, ie, 'cell')
        gref = np.stack([values(grad(q, prob.domain.shape.dim))(x)[..., 0] for q in p], -1)
        close(g.reshape(gref.shape), gref, 30 * tol, 30 * tol * max(1, np.abs(gref).max()),
              'gradient of %s %s' % (what, n), key='gradient')


LS = [('ls.scipy_direct', {}), ('ls.auto_direct', {}), ('ls.scipy_superlu', {}),
      ('ls.scipy_umfpack', {}), ('ls.mumps', {})]


def run_exact(case):
    kind = case['mesh']['kind']
    mesh = gen.mesh(case['mesh'])[0] if case.get('periodic') is None else box_mesh(case)
    desc = describe(case, mesh)
    exact = desc[0]
    if case['prob'] == 'stokes' and not desc[-1]:
        raise Skip('no pressure datum')
    name, lo = LS[case['ls'] % len(LS)]
    opts = dict(ls=name, lsopts=lo, linear=bool(case['linear']))
    prob, vv, status, n, cond = declarative(case, mesh, desc, opts)
    io = iorder(case, mesh.dim, kind)
    tol = 1e-13 * max(cond, 1e4)
    compare(prob, vv, exact, min(io, 5), 'solution', tol)
    check(status.nls_status.condition == 0, 'solution not converged: %s', status.nls_status)
    if case['inter']:
        prob2, vv2 = interactive(case, mesh, desc)
        for k in exact:
            close(vv2[k](), vv[k](), tol, tol * max(1, np.abs(vv[k]()).max()),
                  'interactive solution ' + k, key='interactive')
    nonconst = any(sum(e) > 0 for p in exact.values() for q in p for e in q.d)
    return {'nontrivial': n > 0 and nonconst,
            'classes': [case['prob'], kind, 'o%d' % case['order'], case['fam'], name,
                        'neumann' if desc[-1] else 'dirichlet'] +
            (['periodic'] if case.get('periodic') is not None else [])}


KINDS = {'diffusion': ['1_2', '2_3', '2_4', '3_4', '3_8'], 'elasticity': ['2_3', '2_4', '3_4', '3_8'],
         'stokes': ['2_3', '2_4', '3_4', '3_8'], 'biot': ['2_3', '2_4', '3_4', '3_8'],
         'piezo': ['2_3', '2_4', '3_4', '3_8']}


def exact_case(prob):
    @st.composite
    def mk(draw):
        kind = draw(st.sampled_from(KINDS[prob]))
        dim = int(kind[0])
        fam = draw(st.sampled_from(['lagrange', 'lagrange', 'lagrange', 'lobatto'] if kind in (
            '1_2', '2_4', '3_8') else ['lagrange']))
        mx = {1: 5, 2: 3, 3: 2}[dim] if prob == 'diffusion' else {2: 2, 3: 1}.get(dim)
        top = 2 if dim == 3 else 4 if prob == 'diffusion' else 3
        lo = 2 if prob == 'stokes' else 1
        return dict(
            prob=prob, fam=fam, mesh=draw(gen.cases([kind], max_cells=mx)),
            order=draw(st.integers(lo, top)), order2=draw(st.integers(1, 2)),
            vark=draw(st.integers(0, 1)), low=draw(st.integers(0, 3)),
            robin=draw(st.integers(0, 1)),
            split=draw(st.sampled_from([0.3, 0.5, 0.7, 1])) if fam == 'lagrange' else 1,
            rhs=draw(st.integers(0, 1)), linear=draw(st.integers(0, 1)),
            ls=draw(st.integers(0, len(LS) - 1)), inter=draw(st.integers(0, 1)),
            seed=draw(st.integers(0, 10 ** 6)))
    return mk()


def periodic_case(item=None):
    @st.composite
    def mk(draw):
        case = draw(exact_case(draw(st.sampled_from(['diffusion', 'elasticity', 'biot']))))
        kind = case['mesh']['kind']
        if kind == '1_2':
            case['mesh'] = draw(gen.cases(['2_4'], max_cells=3))
            kind = '2_4'
        dim = int(kind[0])
        case['fam'] = 'lagrange'
        case['mesh'] = dict(case['mesh'], jit=0, aff=0, drop=0)
        case['periodic'] = draw(st.integers(0, dim - 1))
        return case
    return mk()


# --- numbering --------------------------------------------------------------------------------

def run_numbering(case):
    """General data: the solution does not depend on the numbering."""
    from sfepy.discrete.fem import Mesh
    r = gen.raw(case['mesh'])
    rs = np.random.RandomState(case['seed'] + 5)
    x = r['coors']
    dim = x.shape[1]
    conn = r['conns'][0]
    sols = []
    perm, cp = rs.permutation(len(x)), rs.permutation(len(conn))
    inv = np.argsort(perm)
    for renum in (0, 1):
        y, c = (x[perm], inv[conn][cp]) if renum else (x, conn)
        mesh = Mesh.from_data('m', y.copy(), None, [np.ascontiguousarray(c, dtype=np.int32)],
                              [np.zeros(len(c), dtype=np.int32)], r['descs'])
        desc = list(describe(case, mesh))
        # Not polynomial data.
        mats = desc[2]
        for k in ('f', 'g', 't', 'h', 'po'):
            if k in mats:
                mats[k] = (lambda f: lambda x: np.sin(2 * f(x)) + 0.3 * x[:, :1, None])(mats[k])
        prob, vv, status, n, cond = declarative(case, mesh, desc,
                                                dict(ls='ls.scipy_direct', linear=True))
        out = {}
        for k in desc[0]:
            f = vv[k].field
            co = f.get_coor()
            if len(np.unique(np.round(co, 7), axis=0)) != len(co):
                raise Skip('coinciding nodes')
            out[k] = (co, vv[k]().reshape(len(co), -1))
        sols.append(out)
    tol = 1e-13 * max(cond, 1e4)
    for k in sols[0]:
        (a, va), (b, vb) = sols[0][k], sols[1][k]
        ia, ib = (np.lexsort(np.round(q @ rs2, 7)[None]) for q, rs2 in
                  ((a, np.random.RandomState(1).rand(dim)), (b, np.random.RandomState(1).rand(dim))))
        check(np.allclose(a[ia], b[ib], atol=1e-7), 'nodes of renumbered meshes differ')
        close(vb[ib], va[ia], tol, tol * max(1, np.abs(va).max()), 'solution %s after '
              'renumbering' % k, key='numbering')
    return {'nontrivial': n > 0 and len(conn) > 1, 'classes': [case['prob'], case['mesh']['kind']]}


def numbering_case(item=None):
    @st.composite
    def mk(draw):
        case = draw(exact_case(draw(st.sampled_from(['diffusion', 'elasticity', 'biot', 'piezo']))))
        case['fam'] = 'lagrange'
        return case
    return mk()


SUBS = [
    Sub('exact', exact_case, run_exact, 40, 2500, items=sorted(KINDS)),
    Sub('periodic', periodic_case, run_exact, 60, 2500),
    Sub('numbering', numbering_case, run_numbering, 50, 2000),
]
