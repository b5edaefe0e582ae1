"""E02: boundary conditions and constraints in full and reduced vectors."""
import numpy as np
import hypothesis.strategies as st

import gen
import pb
from harness import Sub, Skip, check, close

PROP = 'E02'
RULE = ('Cases: block meshes (2_3, 2_4, 3_4, 3_8, permuted numbering, periodic distortion) x a vector '
        'and a scalar unknown (orders 1, 2; real or complex) x random sets of essential (constant, '
        'list, function, time dependent, limited in time), periodic and linear combination conditions '
        'x sequences of times, selections and removals of conditions.  Oracle: constraint rows written '
        'from node coordinates; elimination of the constraints from the dense unconstrained system.  '
        'Non-trivial: at least one constraint row is active.')
ASSUMPTIONS = ['conditions are mutually compatible', 'nodal bases',
               'linear combination conditions do not overlap other conditions except documented']

EPS = 1e-6
AX = 'xyz'


# ------------------------------------------------------------------ meshes

def make_mesh(case):
    from sfepy.discrete.fem import Mesh
    r = gen.raw(dict(case['mesh'], jit=0, aff=0, drop=0))
    x = r['coors']
    dim = x.shape[1]
    L = x.max(0)
    rs = np.random.RandomState(case['mesh']['seed'])
    a = 0.03 * case['mesh'].get('wave', 0)
    y = x.copy()
    for i in range(dim):
        j = (i + 1) % dim
        y[:, i] += a * np.sin(2 * np.pi * x[:, i] / L[i]) * np.cos(2 * np.pi * x[:, j] / L[j]
                                                                   + rs.rand())
    y = y * (1 + rs.randint(0, 3, dim) * 0.5)
    off = rs.uniform(-1, 1, dim) * case['mesh'].get('off', 0)
    y = y + off
    m = Mesh.from_data('m', y, r['ngroups'].copy(), [c.copy() for c in r['conns']],
                       [c.copy() for c in r['mat_ids']], list(r['descs']))
    return m, y


def sides(x):
    """Names -> (axis, coordinate)."""
    out = {}
    for k in range(x.shape[1]):
        out[AX[k].upper() + '0'] = (k, x[:, k].min())
        out[AX[k].upper() + '1'] = (k, x[:, k].max())
    return out


# ------------------------------------------------------------------ prescribed function

class G:
    """Prescribed values of component c at coordinates and time; periodic along some axes."""

    def __init__(self, case, periodic, dim):
        rs = np.random.RandomState(case['seed'])
        self.mode = case['gmode']
        self.c = rs.uniform(-2, 2, 8)
        self.a = rs.uniform(-1, 1, (8, dim))
        self.a[:, periodic] = 0.0
        self.b = rs.uniform(-1, 1, 8)
        self.cplx = case.get('cplx', 0)
        if self.mode == 'scalar':
            self.c[:] = self.c[0]

    def __call__(self, c, x, t):
        x = np.asarray(x)
        v = np.full(len(x), self.c[c])
        if self.mode == 'fun':
            v = v + np.sin(x @ self.a[c]) * (1 + t) + self.b[c] * t
        if self.cplx:
            v = v + 1j * (self.c[c + 1 if c < 7 else 0] if self.mode != 'scalar' else self.c[0])
        return v


# ------------------------------------------------------------------ problem

NROT = {2: 1, 3: 3}


def configuration(case, x, constrained=True):
    dim = x.shape[1]
    sd = sides(x)
    dt = 'complex' if case.get('cplx') else 'real'
    reg = {'Omega': 'all'}
    for n, (k, v) in sd.items():
        op = '<' if n[1] == '0' else '>'
        reg[n] = ('vertices in (%s %s %.12e)' % (AX[k], op, v + (EPS if op == '<' else -EPS)), 'facet')
    rs = np.random.RandomState(case['seed'] + 1)
    n = len(x)
    marks = {'R0': rs.rand(n) < 0.25, 'R1': rs.rand(n) < 0.25}
    funs = {}
    for nm_ in ('R0', 'R1'):
        if not marks[nm_].any():
            marks[nm_][rs.randint(n)] = True

        def sel(coors, domain=None, m=marks[nm_]):
            return np.where(m)[0]
        funs['sel' + nm_] = (sel,)
        reg[nm_] = ('vertices by sel' + nm_, 'vertex')
    nc = case['_nc']
    cm = rs.rand(nc) < 0.3
    cm[rs.randint(nc)] = True

    def selc(coors, domain=None):
        return np.where(cm)[0]
    funs['selC0'] = (selc,)
    reg['C0'] = ('cells by selC0', 'cell')
    comps = {'u': dim, 'p': 1, 'w': dim + NROT[dim]}
    fields = {'fu': (dt, dim, 'Omega', case['ou']), 'fp': (dt, 1, 'Omega', case['op'])}
    var = {'u': ('unknown field', 'fu', case['ord'][0]), 'v': ('test field', 'fu', 'u'),
           'p': ('unknown field', 'fp', case['ord'][1]), 'q': ('test field', 'fp', 'p')}
    eqs = {'a': 'dw_dot.i.Omega(m.k, v, u) + dw_div_grad.i.Omega(v, u) '
                '- dw_stokes.i.Omega(v, p) = dw_volume_lvf.i.Omega(m.f, v)',
           'b': 'dw_stokes.i.Omega(u, q) + dw_dot.i.Omega(m.k, q, p) + dw_laplace.i.Omega(q, p)'
                ' = dw_volume_lvf.i.Omega(m.g, q)'}
    if case.get('w'):
        fields['fw'] = (dt, dim + NROT[dim], 'Omega', 1)
        var['w'] = ('unknown field', 'fw', case['ord'][2])
        var['z'] = ('test field', 'fw', 'w')
        eqs['c'] = 'de_dot.i.Omega(m.k, z, w) = 0'
    mats = {'m': ({'k': 2.0, 'f': rs.uniform(-1, 1, (dim, 1)), 'g': np.array([[rs.uniform(-1, 1)]])},)}
    conf = dict(regions=reg, fields=fields, variables=var, materials=mats, equations=eqs,
                integrals={'i': 4}, functions=funs,
                solvers={'ls': ('ls.scipy_superlu' if 0 else 'ls.scipy_direct', {}),
                         'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-11, 'eps_r': 1e-11})},
                options={'nls': 'newton', 'ls': 'ls'})
    if not constrained:
        return conf, sd, comps, marks
    periodic = [k for k in range(dim) if case['per'][k]]
    g = G(case, periodic, dim)
    base = {'u': 0, 'p': dim, 'w': 0}
    ebcs, epbcs = {}, {}
    for i, e in enumerate(case['ebcs']):
        dd = {}
        for vname, cs, form in e['dofs']:
            cs = [c for c in cs if c < comps[vname]]
            if not cs or (vname == 'w' and not case.get('w')):
                continue
            al = len(cs) == comps[vname] and cs == sorted(cs) and form != 'list'
            key = '%s.%s' % (vname, 'all' if al else
                             ('%d' % cs[0] if len(cs) == 1 and form != 'list'
                              else '[%s]' % ', '.join('%s.%d' % (vname, c) for c in cs)
                              if 0 else '[%s]' % ','.join(str(c) for c in cs)))
            if case['gmode'] == 'fun':
                fn = 'val_%s_%s' % (vname, ''.join(map(str, cs)))

                def fun(ts, coors, bc=None, problem=None, cs=cs, b=base[vname], **kw):
                    t = ts.time if ts is not None else 0.0
                    return np.stack([g(b + c, coors, t) for c in cs], 1)
                funs[fn] = (fun,)
                val = fn
            elif case['gmode'] == 'scalar':
                val = g(0, np.zeros((1, dim)), 0)[0]
            else:
                val = [g(base[vname] + c, np.zeros((1, dim)), 0)[0] for c in cs]
                if len(val) == 1 and form != 'vec':
                    val = val[0]
            dd[key] = val
        if not dd:
            continue
        tt = e.get('times')
        if tt is None:
            ebcs['e%d' % i] = (e['region'], dd)
        elif tt[0] == 'fun':
            def act(ts, s=tt[1]):
                return ts.step % 2 == s
            funs['act%d' % i] = (act,)
            ebcs['e%d' % i] = (e['region'], 'act%d' % i, dd)
        else:
            ebcs['e%d' % i] = (e['region'], [tuple(a) for a in tt[1]], dd)
    from sfepy.discrete.fem import periodic as per
    for k in periodic:
        a = AX[k].upper()
        for j, (vname, cs) in enumerate(case['pdofs'][k]):
            if vname == 'w' and not case.get('w'):
                continue
            cs = [c for c in cs if c < comps[vname]] or [0]
            key = '%s.all' % vname if len(cs) == comps[vname] else \
                '%s.[%s]' % (vname, ','.join(map(str, cs)))
            kind = case['match'][k]
            if kind == 'line' and dim == 2:
                mf = getattr(per, 'match_%s_line' % AX[1 - k])
            elif kind == 'coors':
                # Equal coordinates after removing the shift by a user function.
                def mf(c1, c2, k=k):
                    c1, c2 = c1.copy(), c2.copy()
                    c1[:, k] = c2[:, k] = 0
                    return per.match_coors(c1, c2)
            else:
                mf = getattr(per, 'match_%s_plane' % AX[k])
            funs['match%d%d' % (k, j)] = (mf,)
            rr = [a + '0', a + '1']
            if case['swap'][k]:
                rr = rr[::-1]
            epbcs['p%d%d' % (k, j)] = (rr, {key: key}, 'match%d%d' % (k, j))
    conf['ebcs'], conf['epbcs'] = ebcs, epbcs
    return conf, sd, comps, marks


# ------------------------------------------------------------------ constraint model

class Model:
    def __init__(self, prob, case, x):
        self.var = prob.equations.variables
        self.di = self.var.di
        self.x = x
        self.fc = {n: self.var[n].field.get_coor() for n in self.di.var_names}
        self.nc = {n: self.var[n].n_components for n in self.di.var_names}
        self.prob = prob

    def dof(self, v, nod, c):
        return self.di.indx[v].start + np.asarray(nod) * self.nc[v] + c

    def nodes(self, v, region, sd):
        if region in sd:
            k, val = sd[region]
            return np.where(np.abs(self.fc[v][:, k] - val) < EPS)[0]
        reg = self.prob.domain.regions[region]
        return np.unique(self.var[v].field.get_dofs_in_region(reg, merge=True))


def active(e, ts):
    tt = e.get('times')
    if tt is None:
        return True
    if tt[0] == 'fun':
        return ts.step % 2 == tt[1]
    return any(a <= ts.time < b for a, b in tt[1])


def rows_of(case, prob, model, sd, comps, ts, ebc_names, epbc_names):
    """Constraint rows: list of ({dof: coef}, rhs)."""
    dim = model.x.shape[1]
    periodic = [k for k in range(dim) if case['per'][k]]
    g = G(case, periodic, dim)
    base = {'u': 0, 'p': dim, 'w': 0}
    rows = []
    for i, e in enumerate(case['ebcs']):
        if 'e%d' % i not in ebc_names or not active(e, ts):
            continue
        for vname, cs, _ in e['dofs']:
            if vname not in model.nc:
                continue
            nod = model.nodes(vname, e['region'], sd)
            for c in cs:
                if c >= comps[vname]:
                    continue
                cc = 0 if case['gmode'] == 'scalar' else base[vname] + c
                val = g(cc, model.fc[vname][nod], ts.time)
                for d, v in zip(model.dof(vname, nod, c), val):
                    rows.append(({int(d): 1.0}, v))
    for k in periodic:
        a = AX[k].upper()
        for j, (vname, cs) in enumerate(case['pdofs'][k]):
            if vname not in model.nc or 'p%d%d' % (k, j) not in epbc_names:
                continue
            cs = [c for c in cs if c < comps[vname]] or [0]
            n0, n1 = model.nodes(vname, a + '0', sd), model.nodes(vname, a + '1', sd)
            c0, c1 = model.fc[vname][n0].copy(), model.fc[vname][n1].copy()
            c0[:, k] = c1[:, k] = 0
            dist = np.abs(c0[:, None] - c1[None]).max(2)
            assert dist.min(1).max() < EPS
            m = dist.argmin(1)
            for c in cs:
                for d0, d1 in zip(model.dof(vname, n0, c), model.dof(vname, n1[m], c)):
                    rows.append(({int(d0): 1.0, int(d1): -1.0}, 0.0))
    return rows


def dense(rows, n, dtype):
    C = np.zeros((len(rows), n), dtype)
    b = np.zeros(len(rows), dtype)
    for i, (r, v) in enumerate(rows):
        for d, c in r.items():
            C[i, d] += c
        b[i] = v
    return C, b


def expand_map(var, nr, n):
    t0 = var.make_full_vec(np.zeros(nr, var.dtype)).copy()
    T = np.empty((n, nr), var.dtype)
    for i in range(nr):
        e = np.zeros(nr, var.dtype)
        e[i] = 1.0
        T[:, i] = var.make_full_vec(e) - t0
    return T, t0


def ev_parts(prob):
    ev = prob.get_evaluator()
    return ev


def unconstrained(case, x, mesh):
    conf, _, _, _ = configuration(case, x, constrained=False)
    p0 = pb.problem(None, conf, mesh=mesh)
    p0.time_update()
    p0.update_materials(verbose=False)
    ev = p0.get_evaluator()
    v = p0.equations.variables
    v.init_state()
    n = v.di.n_dof_total
    z = np.zeros(n, v.dtype)
    f = ev.eval_residual(z).copy()
    A = ev.eval_tangent_matrix(z).toarray()
    return A, f, v.di


def check_reduced(prob, case, C, b, A, f, rs, lcbc=False, key=''):
    """All algebraic relations of the reduced and full vectors."""
    var = prob.equations.variables
    n = var.di.n_dof_total
    nr = (var.lcdi if var.has_lcbc else var.adi).n_dof_total
    T, t0 = expand_map(var, nr, n)
    sc = 1 + np.abs(t0).max()
    if len(C):
        close(C @ t0, b, 1e-9, 1e-9 * sc, 'constraints of the zero reduced vector', key=key + 'value')
        nr and close(C @ T, 0 * (C @ T), 1e-9, 1e-9, "constraints of reduced DOFs", key=key + "hom")
    rank = np.linalg.matrix_rank(C, tol=1e-8) if len(C) else 0
    check(nr == n - rank, 'number of reduced DOFs: %d, %d expected', nr, n - rank, key=key + 'count')
    if nr:
        check(np.linalg.matrix_rank(T, tol=1e-8) == nr, 'independent reduced DOFs', key=key + 'rank')
    r = rs.uniform(-1, 1, nr).astype(var.dtype)
    if case.get('cplx'):
        r = r + 1j * rs.uniform(-1, 1, nr)
    u = var.make_full_vec(r)
    close(u, T @ r + t0, 1e-10, 1e-10 * sc, 'linearity of expansion', key=key + 'lin')
    if not lcbc:
        close(var.reduce_vec(u), r, 1e-12, 1e-12, 'reduction of an expanded vector', key=key + 'inv')
        w = rs.uniform(-1, 1, n).astype(var.dtype)
        close(var.reduce_vec(w, follow_epbc=True), T.T @ w, 1e-11, 1e-11,
              'reduction of assembled vectors', key=key + 'adj')
        check(var.has_ebc(u), 'conditions detected in an expanded vector', key=key + 'has')
        w2 = w.copy()
        var.apply_ebc(w2)
        if len(C):
            close(C @ w2, b, 1e-9, 1e-9 * sc, 'conditions applied to a vector', key=key + 'apply')
            con = np.abs(C).max(0) > 0
            check(np.array_equal(w2[~con], w[~con]), 'unconstrained DOFs changed', key=key + 'applyfree')
            d = rs.choice(np.where(con)[0])
            w3 = u.copy()
            w3[d] += 0.5
            check(not var.has_ebc(w3), 'violated condition not detected', key=key + 'hasnot')
            check(var.has_ebc(w2), 'applied conditions detected', key=key + 'hasapp')
    # The reduced system.
    ev = prob.get_evaluator()
    prob.update_materials(verbose=False)
    res = ev.eval_residual(r.copy())
    want = T.T @ (A @ u + f)
    close(res, want, 1e-9, 1e-9 * (1 + np.abs(A @ u + f).max()), 'reduced residual', key=key + 'res')
    if nr:
        M = ev.eval_tangent_matrix(r.copy())
        close(M.toarray(), T.T @ A @ T, 1e-9, 1e-9 * (1 + np.abs(A).max()), 'reduced matrix',
              key=key + 'mtx')
    return T, t0, nr


def check_solution(prob, T, t0, A, f, C, b, key, **kw):
    st_ = prob.solve(save_results=False, verbose=False, **kw)
    u = st_()
    sc = 1 + np.abs(u).max()
    if len(C):
        close(C @ u, b, 1e-8, 1e-8 * sc, 'constraints of the solution', key=key + 'solcon')
    x = np.linalg.solve(T.T @ A @ T, -T.T @ (A @ t0 + f)) if T.shape[1] else np.zeros(0)
    close(u, T @ x + t0, 1e-7, 1e-7 * sc, 'solution of the constrained problem', key=key + 'sol')


# ------------------------------------------------------------------ strategies

def mesh_strategy(item, mx=None):
    mx = mx or {'2_3': 3, '2_4': 3, '3_4': 2, '3_8': 2}
    dim = int(item[0])
    return st.fixed_dictionaries({
        'kind': st.just(item), 'shape': st.lists(st.integers(1, mx[item]), min_size=dim, max_size=dim),
        'seed': st.integers(0, 10 ** 6), 'wave': st.integers(0, 2), 'off': st.integers(0, 1),
        'rot': st.just(item in ('2_4', '3_8'))})


def dofs_strategy():
    one = st.tuples(st.sampled_from(['u', 'u', 'p', 'w']),
                    st.sampled_from([[0], [1], [0, 1], [1, 0], [0, 1, 2], [2, 0], [2], [0, 1, 2, 3, 4, 5]]),
                    st.sampled_from(['', 'list', 'vec'])).map(list)
    return st.lists(one, min_size=1, max_size=2, unique_by=lambda a: a[0])


def bc_strategy(item):
    dim = int(item[0])
    regs = [AX[k].upper() + s for k in range(dim) for s in '01'] + ['R0', 'R1', 'C0']
    times = st.one_of(
        st.none(), st.none(),
        st.integers(0, 1).map(lambda a: ['fun', a]),
        st.lists(st.tuples(st.integers(0, 4), st.integers(1, 3)).map(
            lambda a: [0.2 * a[0], 0.2 * (a[0] + a[1])]), min_size=1, max_size=2).map(
                lambda a: ['list', a]))
    pd = st.lists(st.tuples(st.sampled_from(['u', 'p', 'w']),
                            st.sampled_from([[0], [0, 1], [1], [0, 1, 2], [0, 1, 2, 3, 4, 5]])).map(list),
                  min_size=1, max_size=2, unique_by=lambda a: a[0])
    return st.fixed_dictionaries({
        'mesh': mesh_strategy(item), 'seed': st.integers(0, 10 ** 6),
        'ou': st.sampled_from([1, 1, 2]), 'op': st.sampled_from([1, 1, 2]),
        'w': st.sampled_from([0, 0, 1]), 'cplx': st.sampled_from([0, 0, 0, 1]),
        'ord': st.permutations([0, 1, 2]),
        'gmode': st.sampled_from(['fun', 'fun', 'scalar', 'list']),
        'per': st.lists(st.sampled_from([0, 1]), min_size=dim, max_size=dim),
        'swap': st.lists(st.sampled_from([0, 1]), min_size=dim, max_size=dim),
        'match': st.lists(st.sampled_from(['plane', 'line', 'coors']), min_size=dim, max_size=dim),
        'pdofs': st.lists(pd, min_size=dim, max_size=dim),
        'ebcs': st.lists(st.fixed_dictionaries({
            'region': st.sampled_from(regs), 'dofs': dofs_strategy(), 'times': times}),
            min_size=0, max_size=3),
        'steps': st.lists(st.integers(0, 5), min_size=1, max_size=3),
        'ops': st.lists(st.sampled_from(['select', 'remove', 'solve', 'full', 'force']), max_size=2),
    })


def fix_case(case):
    """At least two cells along periodic axes."""
    case = dict(case, mesh=dict(case['mesh']))
    sh = list(case['mesh']['shape'])
    for k in range(len(sh)):
        if case['per'][k]:
            sh[k] = max(sh[k], 2)
    case['mesh']['shape'] = sh
    # A zero order of the list is not possible: region functions need consistent values,
    # so that conditions of periodic axes and random vertex regions stay compatible.
    return case


def run_bc(case):
    from sfepy.solvers.ts import TimeStepper
    case = fix_case(case)
    mesh, x = make_mesh(case)
    case['_nc'] = sum(len(c) for c in gen.raw(case['mesh'])['conns'])
    conf, sd, comps, marks = configuration(case, x)
    A, f, di0 = unconstrained(case, x, mesh)
    prob = pb.problem(None, conf, mesh=make_mesh(case)[0])
    rs = np.random.RandomState(case['seed'] + 7)
    ts = TimeStepper(0.0, 1.0, n_step=6)
    names = list(conf['ebcs']), list(conf['epbcs'])
    model = None
    nt = False
    for i, step in enumerate(case['steps']):
        ts.set_step(step)
        prob.time_update(ts)
        var = prob.equations.variables
        if model is None:
            model = Model(prob, case, x)
            check({k: v for k, v in var.di.indx.items()} == {k: v for k, v in di0.indx.items()},
                  'layout of the full vector', key='layout')
            var.init_state()
        rows = rows_of(case, prob, model, sd, comps, ts, *names)
        C, b = dense(rows, var.di.n_dof_total, var.dtype)
        nt = nt or len(C) > 0
        T, t0, nr = check_reduced(prob, case, C, b, A, f, rs)
    for op in case['ops']:
        if op == 'select':
            names = [[n for n in nn if rs.rand() < 0.5] for nn in names]
            prob.select_bcs(ebc_names=names[0], epbc_names=names[1])
            names = [list(nn) for nn in names]
        elif op == 'remove':
            prob.remove_bcs()
            names = [[], []]
        rows = rows_of(case, prob, model, sd, comps, ts, *names)
        C, b = dense(rows, var.di.n_dof_total, var.dtype)
        if op in ('select', 'remove'):
            T, t0, nr = check_reduced(prob, case, C, b, A, f, rs, key='sel-')
        elif op == 'force':
            con = np.zeros(len(A), bool)
            for r, _ in rows:
                if len(r) == 1:
                    con[list(r)] = True
            # Forced values go through periodic pairs.
            u = var.make_full_vec(np.zeros(nr, var.dtype), force_value=0.75)
            per = np.array([len(r) == 2 for r, _ in rows], bool)
            if con.any():
                close(u[con], 0.75 + 0 * u[con], 1e-12, 1e-12, 'forced values', key='force')
            if per.any():
                close(C[per] @ u, 0 * (C[per] @ u), 1e-12, 1e-12, 'periodicity of forced values',
                      key='forceper')
            w = rs.uniform(-1, 1, len(A)).astype(var.dtype)
            var.apply_ebc(w, force_values=0.75)
            if con.any():
                close(w[con], 0.75 + 0 * w[con], 1e-12, 1e-12, 'forced values applied', key='force2')
        elif op == 'solve' and not any('times' in e and e['times'] for e in case['ebcs']):
            # Stationary solvers work in the time zero.
            ts = ts0 = TimeStepper(0.0, 1.0, n_step=1)
            rows = rows_of(case, prob, model, sd, comps, ts0, *names)
            C, b = dense(rows, var.di.n_dof_total, var.dtype)
            prob.time_update(ts0)
            T, t0 = expand_map(var, var.adi.n_dof_total, len(A))
            if T.shape[1] == 0:
                continue
            check_solution(prob, T, t0, A, f, C, b, 'solve-')
        elif op == 'full' and not case.get('cplx') and not any(e.get('times') for e in case['ebcs']):
            p2 = pb.problem(None, dict(conf, options=dict(conf['options'], active_only=False)),
                            mesh=make_mesh(case)[0])
            ts0 = TimeStepper(0.0, 1.0, n_step=1)
            nn = list(conf['ebcs']), list(conf['epbcs'])
            rows = rows_of(case, p2, model, sd, comps, ts0, *nn)
            C, b = dense(rows, len(A), var.dtype)
            p2.time_update(ts0)
            v2 = p2.equations.variables
            nr2 = sum(v.eq_map.n_eq for v in v2.iter_state())
            if nr2 == 0:
                continue
            st_ = p2.solve(save_results=False, verbose=False)
            u = st_()
            sc = 1 + np.abs(u).max()
            # Constrained minimum by null space.
            import scipy.linalg as sla
            N = sla.null_space(C) if len(C) else np.eye(len(A))
            up = np.linalg.lstsq(C, b, rcond=None)[0] if len(C) else np.zeros(len(A))
            y = np.linalg.solve(N.T @ A @ N, -N.T @ (A @ up + f))
            close(u, up + N @ y, 1e-7, 1e-7 * sc, 'solution with all DOFs active', key='full')
    return nt


# ------------------------------------------------------------------ linear combination conditions

KINDS = ['rigid', 'rigid2', 'rigid2r', 'average_force', 'average_forcer', 'rigid_twist',
         'no_penetration', 'normal_direction', 'edge_direction', 'integral_mean_value',
         'nodal_combination', 'shifted_periodic', 'match_dofs', 'multi_node_combination', 'two']


def lc_strategy(item):
    kind = item
    mk = ['2_3', '2_4', '3_4', '3_8']
    if kind in ('rigid_twist', 'edge_direction'):
        mk = ['3_4', '3_8']

    @st.composite
    def strat(draw):
        it = draw(st.sampled_from(mk))
        m = draw(mesh_strategy(it))
        m['shape'] = [max(2, a) for a in m['shape']]
        if it == '3_8' or it == '3_4':
            m['shape'] = [2] + [min(a, 2) for a in m['shape'][1:]]
            if kind not in ('rigid_twist', 'edge_direction'):
                m['shape'][2] = 1
        dim = int(it[0])
        return {'mesh': m, 'kind': kind, 'seed': draw(st.integers(0, 10 ** 6)),
                'ou': draw(st.sampled_from([1, 1, 2])) if kind != 'edge_direction' else 1,
                'op': draw(st.sampled_from([1, 2])),
                'w': 1 if kind in ('rigid2r', 'average_forcer') else draw(st.sampled_from([0, 0, 1])),
                'ord': draw(st.permutations([0, 1, 2])),
                'gmode': draw(st.sampled_from(['fun', 'scalar', 'list'])),
                'per': [0, draw(st.sampled_from([0, 0, 1])), 0][:dim],
                'swap': [0, draw(st.integers(0, 1)), 0], 'match': ['plane'] * 3,
                'pdofs': [[], [['u', [0, 1, 2]]], []],
                'ebcs': [{'region': 'X0', 'dofs': [['u', draw(st.sampled_from([[0], [0, 1], [0, 1, 2]])),
                                                    '']]}] if draw(st.booleans()) else [],
                'var': draw(st.sampled_from(['u', 'u', 'p'])),
                'ncon': draw(st.integers(1, 3)), 'usefun': draw(st.integers(0, 1)),
                'thread': draw(st.sampled_from([0.3, -0.2, 1.0])),
                'times': draw(st.sampled_from([0, 0, 1])),
                'solve': draw(st.integers(0, 1))}
    return strat()


def spin(x):
    n, dim = x.shape
    if dim == 2:
        return np.stack([-x[:, 1], x[:, 0]], 1)[:, :, None]
    z = np.zeros(n)
    # Rows of r x x... displacement of the rotation vector r: r cross x.
    return np.stack([np.stack([z, x[:, 2], -x[:, 1]], 1),
                     np.stack([-x[:, 2], z, x[:, 0]], 1),
                     np.stack([x[:, 1], -x[:, 0], z], 1)], 1)


def range_rows(dofs, B):
    """Rows saying that values at dofs are in the range of B."""
    import scipy.linalg as sla
    N = sla.null_space(B.T)
    return [({int(d): float(c) for d, c in zip(dofs, N[:, i])}, 0.0) for i in range(N.shape[1])]


def add_lcbc(kind, case, conf, x, sd, comps, rs, tag=''):
    """Add a condition, return a function creating its rows from a model."""
    dim = x.shape[1]
    funs, reg = conf['functions'], conf['regions']
    free = np.where((np.abs(x[:, 0] - sd['X0'][1]) > EPS) & (np.abs(x[:, 0] - sd['X1'][1]) > EPS))[0]
    P = int(rs.choice(free)) if len(free) else 0

    def selp(coors, domain=None):
        return np.array([P])
    funs['selP'] = (selp,)
    reg['P'] = ('vertices by selP', 'vertex')
    v = 'u'
    n_rot = NROT[dim]
    xP = x[P]
    lc = {}
    name = 'l' + tag
    tt = ([(0.5, 2.0)],) if case.get('times') else ()

    def put(region, dofs, fun, kd, *args):
        lc[name] = (region,) + tt + (dofs, fun, kd) + args

    if kind == 'rigid':
        put('X1', {'u.all': None}, None, 'rigid')

        def rows(m):
            nod = m.nodes('u', 'X1', sd)
            c = m.fc['u'][nod]
            B = np.concatenate([np.tile(np.eye(dim), (len(nod), 1)),
                                spin(c).reshape(len(nod) * dim, -1)], 1)
            return range_rows(np.stack([m.dof('u', nod, k) for k in range(dim)], 1).ravel(), B)
    elif kind in ('rigid2', 'rigid2r'):
        s = 'w' if kind == 'rigid2r' else 'u'
        put(('X1', 'P'), {'u.all': s + '.all'}, None, 'rigid2')

        def rows(m):
            nod = m.nodes('u', 'X1', sd)
            pn = int(np.where(np.abs(m.fc[s] - xP).max(1) < EPS)[0][0])
            S = spin(m.fc['u'][nod] - xP)
            out = []
            for i, nn in enumerate(nod):
                for k in range(dim):
                    r = {int(m.dof('u', nn, k)): 1.0, int(m.dof(s, pn, k)): -1.0}
                    if kind == 'rigid2r':
                        for j in range(n_rot):
                            r[int(m.dof(s, pn, dim + j))] = -S[i, k, j]
                    out.append((r, 0.0))
            return out
    elif kind in ('average_force', 'average_forcer'):
        s = 'w' if kind == 'average_forcer' else 'u'
        wfun = None
        nf = None
        if case['usefun']:
            a = rs.uniform(0.1, 0.5)

            def weights(mc, sc):
                out = np.ones((len(sc), dim + n_rot))
                return out * (1 + a * (np.atleast_2d(sc) ** 2).sum(1))[:, None]
            funs['weights'] = (weights,)
            wfun = 'weights'
        put(('X1', 'P'), {'u.all': s + '.all'}, wfun, 'average_force')

        def rows(m):
            nod = m.nodes('u', 'X1', sd)
            pn = int(np.where(np.abs(m.fc[s] - xP).max(1) < EPS)[0][0])
            c = m.fc['u'][nod]
            w = np.ones(len(nod)) if wfun is None else 1 + a * (c ** 2).sum(1)
            d = c - xP
            ln = np.linalg.norm(d, axis=1).mean()
            ln = ln if ln else 1.0
            if kind == 'average_force':
                out = []
                for k in range(dim):
                    r = {int(m.dof('u', pn, k)): 1.0}
                    for wi, nn in zip(w / w.sum(), nod):
                        r[int(m.dof('u', nn, k))] = -wi
                    out.append((r, 0.0))
                return out
            # Weighted least squares fit of a rigid motion, zero nodal rotations.
            S = spin(d)
            sy = dim + n_rot
            X = np.zeros((sy, sy))
            Q = np.zeros((sy, len(nod) * dim))
            for i in range(len(nod)):
                Si = np.eye(sy)
                Si[:dim, dim:] = S[i]
                W = np.diag([w[i]] * dim + [w[i] * ln ** 2] * n_rot)
                X += Si.T @ W @ Si
                Q[:, i * dim:(i + 1) * dim] = (Si.T @ W)[:, :dim]
            Q = np.linalg.solve(X, Q)
            dofs = np.stack([m.dof('u', nod, k) for k in range(dim)], 1).ravel()
            out = []
            for k in range(sy):
                r = {int(m.dof(s, pn, k)): 1.0}
                for q, dd in zip(Q[k], dofs):
                    r[int(dd)] = -q
                out.append((r, 0.0))
            return out
    elif kind == 'rigid_twist':
        a = rs.uniform(-1, 1, 3)
        if rs.rand() < 0.5:
            a = np.eye(3)[rs.randint(3)]
        a = a / np.linalg.norm(a)
        A0 = rs.uniform(-0.5, 0.5, 3)
        h = case['thread']
        reg['XM'] = reg['X0']
        put('X1', {'u.all': None}, None, 'rigid_twist', 'X0', list(A0), list(a), h)

        def rows(m):
            n1, n0 = m.nodes('u', 'X1', sd), m.nodes('u', 'X0', sd)
            B, dofs = [], []
            for nod, sg in ((n1, -0.5), (n0, 0.5)):
                R = spin(m.fc['u'][nod] - A0)
                W = sg * (R @ a + h * a)
                for i, nn in enumerate(nod):
                    B.append(np.concatenate([np.eye(3), R[i], W[i][:, None]], 1))
                    dofs += [int(m.dof('u', nn, k)) for k in range(3)]
            return range_rows(dofs, np.concatenate(B))
    elif kind in ('no_penetration', 'normal_direction'):
        put('X1', {'u.all': None}, None, kind, None)

        def rows(m):
            nod = m.nodes('u', 'X1', sd)
            ks = [0] if kind == 'no_penetration' else list(range(1, dim))
            return [({int(m.dof('u', nn, k)): 1.0}, 0.0) for nn in nod for k in ks]
    elif kind == 'edge_direction':
        reg['E1'] = ('vertices in (x > %.12e) & (y > %.12e)' % (sd['X1'][1] - EPS, sd['Y1'][1] - EPS),
                     'edge')
        put('E1', {'u.all': None}, None, kind, None)

        def rows(m):
            nod = np.intersect1d(m.nodes('u', 'X1', sd), m.nodes('u', 'Y1', sd))
            return [({int(m.dof('u', nn, k)): 1.0}, 0.0) for nn in nod for k in (0, 1)]
    elif kind == 'integral_mean_value':
        vv = case['var'] if not tag else 'p'
        put('X1', {vv + '.all': None}, None, kind)

        def rows(m):
            nod = m.nodes(vv, 'X1', sd)
            dofs = np.stack([m.dof(vv, nod, k) for k in range(comps[vv])], 1).ravel()
            return [({int(dofs[0]): 1.0, int(d): -1.0}, 0.0) for d in dofs[1:]]
    elif kind == 'nodal_combination':
        # Constrain some components of u (or of w with many components).
        vv = 'w' if case['w'] else 'u'
        cs = list(range(comps[vv]))
        if case['ncon'] == 1 and len(cs) > 2 and rs.rand() < 0.5:
            cs = cs[:2]
        nc = min(case['ncon'], len(cs))
        key = vv + ('.all' if len(cs) == comps[vv] else '.[%s]' % ','.join(map(str, cs)))

        def mk():
            while 1:
                mat = rs.uniform(-1, 1, (nc, len(cs))) * (rs.rand(nc, len(cs)) < 0.6)
                if rs.rand() < 0.3:
                    mat = np.round(mat)
                if np.linalg.matrix_rank(mat, tol=1e-2) == nc and (nc == 0 or np.linalg.svd(
                        mat, compute_uv=False)[-1] > 0.1):
                    return mat
        mat = mk()
        rhs = rs.uniform(-1, 1, nc) * (rs.rand() < 0.7)
        al = rs.uniform(-1, 1, dim)
        if case['usefun']:
            def cfun(ts, coors, region):
                n = len(coors)
                return np.tile(mat, (n, 1, 1)), rhs[None] * (1 + coors @ al)[:, None]
            funs['cfun'] = (cfun,)
            put('X1', {key: None}, None, kind, 'cfun')
        else:
            put('X1', {key: None}, None, kind, (mat.tolist(), rhs.tolist()))

        def rows(m):
            nod = m.nodes(vv, 'X1', sd)
            out = []
            for nn in nod:
                f = (1 + m.fc[vv][nn] @ al) if case['usefun'] else 1.0
                for i in range(nc):
                    out.append(({int(m.dof(vv, nn, c)): mat[i, j] for j, c in enumerate(cs)
                                 if mat[i, j]}, rhs[i] * f))
            return out
    elif kind in ('shifted_periodic', 'match_dofs'):
        from sfepy.discrete.fem import periodic as per
        vv = case['var']
        funs['lmatch'] = (per.match_y_plane,)
        b, al = rs.uniform(-1, 1, 8), rs.uniform(-1, 1, 8)

        def shift(c, coors, t):
            return b[c] + al[c] * coors[:, 0] + 0.2 * t * c

        def shift_fun(ts, coors, region):
            t = ts.time
            return np.stack([shift(c, coors, t) for c in range(comps[vv])], 1)
        funs['lshift'] = (shift_fun,)
        args = ('lshift',) if kind == 'shifted_periodic' else ()
        put(['Y0', 'Y1'], {vv + '.all': vv + '.all'}, 'lmatch', kind, *args)

        def rows(m, fixed, t):
            n0, n1 = m.nodes(vv, 'Y0', sd), m.nodes(vv, 'Y1', sd)
            c0, c1 = m.fc[vv][n0].copy(), m.fc[vv][n1].copy()
            c0[:, 1] = c1[:, 1] = 0
            mm = np.abs(c0[:, None] - c1[None]).max(2).argmin(1)
            out = []
            for k in range(comps[vv]):
                sh = shift(k, m.fc[vv][n1[mm]], t) if kind == 'shifted_periodic' else np.zeros(len(n0))
                for d0, d1, s_ in zip(m.dof(vv, n0, k), m.dof(vv, n1[mm], k), sh):
                    if int(d0) in fixed or int(d1) in fixed:
                        continue
                    out.append(({int(d0): 1.0, int(d1): -1.0}, s_))
            return out
    elif kind == 'multi_node_combination':
        vv = case['var']
        nc = case['ncon']
        cmat = rs.uniform(-1, 1, nc)
        seed = rs.randint(1000)
        reg['XF'] = ('vertices in (x < %.12e)' % (sd['X0'][1] + EPS), 'facet')

        def mapf(mc, sc):
            mi = np.arange(len(mc))
            # Nodes are chosen by coordinates.
            o = np.lexsort(np.round(sc, 6).T)
            r2 = np.random.RandomState(seed)
            si = np.array([o[r2.choice(len(sc), nc, replace=len(sc) < nc)]
                           for _ in range(len(mc))])
            if case['usefun']:
                con = np.array([cmat * (1 + 0.1 * (np.sum(c))) for c in mc])
                return mi, si.ravel() if 0 else si, con
            return mi, si
        funs['mapf'] = (mapf,)
        put(['X1', 'XF'], {vv + '.all': vv + '.all'}, 'mapf', kind,
            None if case['usefun'] else cmat.tolist())

        def rows(m):
            n1, n0 = m.nodes(vv, 'X1', sd), m.nodes(vv, 'X0', sd)
            out_ = mapf(m.fc[vv][n1], m.fc[vv][n0])
            mi, si = out_[:2]
            out = []
            for i in range(len(n1)):
                co = out_[2][i] if case['usefun'] else cmat
                for k in range(comps[vv]):
                    r = {int(m.dof(vv, n1[i], k)): 1.0}
                    for j in range(nc):
                        d = int(m.dof(vv, n0[si[i, j]], k))
                        r[d] = r.get(d, 0.0) - co[j]
                    out.append((r, 0.0))
            return out
    conf.setdefault('lcbcs', {}).update(lc)
    return rows


def run_lc(case):
    from sfepy.solvers.ts import TimeStepper
    case = fix_case(case)
    kind = case['kind']
    rs = np.random.RandomState(case['seed'])
    dim = int(case['mesh']['kind'][0])
    if kind in ('rigid_twist', 'multi_node_combination', 'two'):
        case['ebcs'] = []
    if kind == 'edge_direction':
        case['per'] = [0] * 3
    if kind in ('shifted_periodic', 'match_dofs', 'rigid', 'rigid_twist', 'multi_node_combination',
                'rigid2', 'rigid2r', 'average_force', 'average_forcer'):
        case['per'] = [0] * 3
    if kind == 'nodal_combination' and case['usefun']:
        case['per'] = [0] * 3
    mesh, x = make_mesh(case)
    case['_nc'] = sum(len(c) for c in gen.raw(case['mesh'])['conns'])
    conf, sd, comps, marks = configuration(case, x)
    if kind == 'two':
        ks = [str(k) for k in rs.choice(['rigid', 'no_penetration', 'normal_direction',
                                         'nodal_combination', 'integral_mean_value'], 2)]
        # The second one acts on p; the first one on u or w.
        fs = [add_lcbc(ks[0] if ks[0] != 'integral_mean_value' else 'rigid', case, conf, x, sd, comps,
                       rs, ''),
              add_lcbc('integral_mean_value', case, conf, x, sd, comps, rs, '2')]
        if ks[0] == 'nodal_combination' and case['w']:
            fs.append(add_lcbc('no_penetration', case, conf, x, sd, comps, rs, '3'))
        if ks[0] in ('rigid', 'integral_mean_value'):
            case['per'] = [0] * 3
            conf['epbcs'] = {}
    else:
        fs = [add_lcbc(kind, case, conf, x, sd, comps, rs)]
    A, f, di0 = unconstrained(case, x, mesh)
    prob = pb.problem(None, conf, mesh=make_mesh(case)[0])
    ts = TimeStepper(0.0, 1.0, n_step=3)
    model = None
    for step in (2, 1, 0) if case['times'] else (0, 2):
        ts.set_step(step)
        prob.time_update(ts)
        var = prob.equations.variables
        if model is None:
            model = Model(prob, case, x)
            var.init_state()
        rows = rows_of(case, prob, model, sd, comps, ts, list(conf['ebcs']), list(conf['epbcs']))
        fixed = {d for r, _ in rows if len(r) == 1 for d in r}
        fixed |= {d for r, _ in rows if len(r) == 2 for d in r}
        act = not case['times'] or ts.time >= 0.5
        for fn in fs:
            if not act:
                continue
            rows = rows + (fn(model, fixed, ts.time) if kind in ('shifted_periodic', 'match_dofs')
                           else fn(model))
        C, b = dense(rows, var.di.n_dof_total, var.dtype)
        check(bool(var.has_lcbc) == bool(act), 'active linear combination conditions', key='lc-active')
        T, t0, nr = check_reduced(prob, case, C, b, A, f, rs, lcbc=bool(act), key='lc-')
        if not act:
            continue
        # States.
        r = rs.uniform(-1, 1, nr)
        var.set_state(r.copy(), reduced=True)
        close(var(), T @ r + t0, 1e-10, 1e-10 * (1 + np.abs(t0).max()), 'state', key='lc-state')
        close(var.get_state(reduced=True), r, 0, 0, 'reduced state', key='lc-rstate')
    if case['solve'] and nr and not case['times']:
        ts0 = TimeStepper(0.0, 1.0, n_step=1)
        prob.time_update(ts0)
        T, t0 = expand_map(var, nr, len(A))
        rows = rows_of(case, prob, model, sd, comps, ts0, list(conf['ebcs']), list(conf['epbcs']))
        for fn in fs:
            rows = rows + (fn(model, fixed, 0.0) if kind in ('shifted_periodic', 'match_dofs')
                           else fn(model))
        C, b = dense(rows, var.di.n_dof_total, var.dtype)
        check_solution(prob, T, t0, A, f, C, b, 'lcsolve-')
    return {"nontrivial": True, "classes": [kind]}


# ------------------------------------------------------------------ initial conditions

def ic_strategy(item):
    dim = int(item[0])
    regs = [AX[k].upper() + s for k in range(dim) for s in '01'] + ['R0', 'R1', 'C0', 'Omega']
    return st.fixed_dictionaries({
        'mesh': mesh_strategy(item), 'seed': st.integers(0, 10 ** 6),
        'ou': st.sampled_from([1, 2]), 'op': st.sampled_from([1, 2]),
        'w': st.sampled_from([0, 1]), 'ord': st.permutations([0, 1, 2]),
        'gmode': st.sampled_from(['fun', 'scalar', 'list']),
        'per': st.just([0] * 3), 'swap': st.just([0] * 3), 'match': st.just(['plane'] * 3),
        'pdofs': st.just([[]] * 3), 'ebcs': st.just([]),
        'ics': st.lists(st.fixed_dictionaries({
            'region': st.sampled_from(regs), 'dofs': dofs_strategy()}), min_size=1, max_size=3),
    })


def run_ic(case):
    mesh, x = make_mesh(case)
    case = dict(case, _nc=sum(len(c) for c in gen.raw(case['mesh'])['conns']))
    dim = x.shape[1]
    conf, sd, comps, marks = configuration(case, x)
    g = G(case, [], dim)
    base = {'u': 0, 'p': dim, 'w': 0}
    ics = {}
    for i, e in enumerate(case['ics']):
        dd = {}
        for vname, cs, form in e['dofs']:
            cs = [c for c in cs if c < comps[vname]]
            if not cs or (vname == 'w' and not case['w']):
                continue
            key = '%s.all' % vname if cs == list(range(comps[vname])) else \
                '%s.[%s]' % (vname, ','.join(map(str, cs)))
            if case['gmode'] == 'fun':
                fn = 'ic_%s_%s' % (vname, ''.join(map(str, cs)))

                def fun(coors, ic=None, cs=cs, b=base[vname], **kw):
                    return np.stack([g(b + c, coors, 0.0) for c in cs], 1)
                conf['functions'][fn] = (fun,)
                val = fn
            elif case['gmode'] == 'scalar':
                val = g(0, np.zeros((1, dim)), 0)[0]
            else:
                val = [g(base[vname] + c, np.zeros((1, dim)), 0)[0] for c in cs]
            dd[key] = val
        if dd:
            ics['i%d' % i] = (e['region'], dd)
    conf['ics'] = ics
    prob = pb.problem(None, conf, mesh=mesh)
    prob.time_update()
    var = prob.get_initial_state()
    model = Model(prob, case, x)
    want = np.zeros(var.di.n_dof_total)
    for i, e in enumerate(case['ics']):
        if 'i%d' % i not in ics:
            continue
        for vname, cs, _ in e['dofs']:
            if vname not in model.nc:
                continue
            nod = model.nodes(vname, e['region'], sd)
            for c in cs:
                if c < comps[vname]:
                    cc = 0 if case['gmode'] == 'scalar' else base[vname] + c
                    want[model.dof(vname, nod, c)] = g(cc, model.fc[vname][nod], 0.0)
    close(var(), want, 1e-12, 1e-12, 'initial state', key='ic')
    w = np.random.RandomState(1).rand(len(want))
    var.apply_ic(w)
    close(w, want, 1e-12, 1e-12, 'initial conditions applied', key='applyic')
    return {"nontrivial": bool(ics)}


SUBS = [
    Sub('bcs', bc_strategy, run_bc, n=40, items=['2_3', '2_4', '3_4', '3_8']),
    Sub('lcbcs', lc_strategy, run_lc, n=12, items=KINDS),
    Sub('ics', ic_strategy, run_ic, n=10, items=['2_3', '2_4', '3_8']),
]
