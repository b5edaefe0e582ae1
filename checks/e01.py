"""E01: assembled systems of equations are the sums of their terms."""
import numpy as np
import hypothesis.strategies as st

import gen
import pb
from harness import Sub, check, close

PROP = 'E01'
RULE = ('Cases: (assembly) random systems of 1-3 equations with 1-3 unknowns (scalar/vector, orders 1-2, on '
        'the whole domain or a subdomain, random DOF ordering, real or complex) and up to 7 terms with '
        'random multipliers, right-hand side placement, parameters, history values and time derivatives; '
        '(parse) random equation strings with random formatting; (expression) sums of integral terms. '
        'Oracle: each term evaluated alone in its own problem, multiplied by the written number and '
        'scattered to the rows and columns of its variables; the generated structure of the string; '
        'numpy quadrature.  Non-trivial: at least two terms, or one with a multiplier.')
ASSUMPTIONS = ['terms alone are right (T01, T02)']

MULS = [('', 1.0), ('2.0 *', 2.0), ('2*', 2.0), ('1.5e-1 *', 0.15), ('-3.5*', -3.5), ('-', -1.0), ('+', 1.0),
        ('(1 + 2.5) *', 3.5), ('(2.0 - 0.5)*', 1.5), ('- 2.0 *', -2.0), ('1.25E+1 *', 12.5), ('0.5*', 0.5),
        ('7 *', 7.0), ('(-1.5) *', -1.5), ('3e2 *', 300.0), ('2. *', 2.0), ('-(1.5 + 1) *', -2.5),
        ('(3.0 + 1.0 - 0.5) *', 3.5)]
CMULS = [('1j *', 1j), ('2.5j*', 2.5j), ('(1 + 2j) *', 1 + 2j), ('(1.5 - 0.5j)*', 1.5 - 0.5j),
         ('-2j *', -2j)]


def sep(i):
    return ['', ' ', '\n  ', '   '][i % 4]


def render(parts, fmt):
    """Equation text; parts: (multiplier text, term text, is on the right)."""
    rs = np.random.RandomState(fmt)
    lhs, rhs = [], []
    for m, t, r in parts:
        side = rhs if r else lhs
        m = m.strip()
        if side and not m.startswith(('+', '-')):
            m = '+' + sep(rs.randint(3)) + m
        side.append(sep(rs.randint(4)) + m + sep(rs.randint(3)) + t + sep(rs.randint(3)))
    out = ''.join(lhs)
    if rhs:
        out += '=' + ''.join(rhs)
    elif rs.rand() < 0.5:
        out += '=' + sep(rs.randint(3)) + '0' + sep(rs.randint(2))
    return out


# ------------------------------------------------------------------ assembly

def asm_strategy(item):
    dim = int(item[0])
    cc = {'1_2': 6, '2_3': 3, '2_4': 3, '3_4': 2, '3_8': 2}
    fld = st.fixed_dictionaries({'nc': st.sampled_from('sv'), 'reg': st.sampled_from(['Omega', 'Omega', 'O2']),
                                 'order': st.sampled_from([1, 1, 2])})
    term = st.fixed_dictionaries({
        'row': st.integers(0, 2), 'col': st.integers(0, 2), 'kind': st.integers(0, 20),
        'reg': st.integers(0, 5), 'mul': st.integers(0, 40), 'rhs': st.booleans(),
        'mode': st.sampled_from(['u', 'u', 'u', 'u', 'r', 'h', 'd', 'n']), 'eq': st.integers(0, 2),
        'int': st.integers(0, 1)})
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=cc[item]), 'seed': st.integers(0, 10 ** 6),
        'fields': st.lists(fld, min_size=1, max_size=3), 'ord': st.permutations([0, 1, 2]),
        'terms': st.lists(term, min_size=1, max_size=5), 'fmt': st.integers(0, 10 ** 6),
        'cplx': st.sampled_from([0, 0, 0, 1]), 'blocks': st.sampled_from([0, 0, 1]),
        'perm': st.integers(0, 10 ** 6)})


def base_conf(case, dim, nc):
    rs = np.random.RandomState(case['seed'])
    cm = rs.rand(nc) < 0.6
    cm[rs.randint(nc)] = True

    def sel(coors, domain=None):
        return np.where(cm)[0]
    S = dim * (dim + 1) // 2
    A = rs.uniform(-1, 1, (S, S))
    mats = {'m': ({'c': rs.uniform(0.5, 2), 'f': rs.uniform(-1, 1, (dim, 1)), 'D': A @ A.T + np.eye(S),
                   'K': np.eye(dim) + 0.2 * np.ones((dim, dim)), 'a': rs.uniform(-1, 1, (S, 1)),
                   'g': rs.uniform(-1, 1)},)}
    reg = {'Omega': 'all', 'O2': 'cells by sel', 'S': ('vertices of surface', 'facet')}
    return reg, mats, {'sel': (sel,)}


def options(case, fa, fb, mode, dim):
    """Templates of terms with rows of field fa and columns of fb; (name, args, needs state)."""
    out = []
    if mode == 'n':
        if fa['nc'] == 's':
            return [('dw_integrate', 'm.c, {t}', 'S'), ('dw_volume_lvf', 'm.g, {t}', '')]
        return [('dw_volume_lvf', 'm.f, {t}', ''), ('dw_surface_ltr', 'm.f, {t}', 'SO')]
    k = fa['nc'] + fb['nc']
    if k == 'ss':
        out = [('dw_dot', 'm.c, {t}, {s}', 'S'), ('dw_laplace', 'm.c, {t}, {s}', ''),
               ('dw_diffusion', 'm.K, {t}, {s}', ''), ('dw_dot', '{t}, {s}', 'S')]
    elif k == 'vv' and dim > 1:
        out = [('dw_dot', 'm.c, {t}, {s}', 'S'), ('dw_lin_elastic', 'm.D, {t}, {s}', ''),
               ('dw_div_grad', 'm.c, {t}, {s}', ''), ('dw_dot', 'm.K, {t}, {s}', '')]
        if fa is fb and mode == 'u' and not case['cplx']:
            out.append(('dw_convect', '{t}, {s}', ''))
    elif k == 'vv':
        out = [('dw_dot', 'm.c, {t}, {s}', 'S')]
    elif k == 'vs':
        out = [('dw_stokes', '{t}, {s}', ''), ('dw_biot', 'm.a, {t}, {s}', ''),
               ('dw_v_dot_grad_s', 'm.c, {t}, {s}', '')]
    else:
        out = [('dw_stokes', '{s}, {t}', ''), ('dw_biot', 'm.a, {s}, {t}', ''),
               ('dw_v_dot_grad_s', 'm.c, {s}, {t}', '')]
    if k in ('ss', 'vv') and fa is not fb:
        # Only dw_dot supports different fields of the same shape.
        out = [o for o in out if o[0] == 'dw_dot']
    if mode in 'rhd':
        # Constant in the derivative of the unknown: bilinear terms only; the argument kinds are
        # matched by types, so coupling terms with parameters are left out.
        out = [o for o in out if k in ('ss', 'vv')]
    return out


NAMES = ['u', 'p', 'w']


def field_names(i):
    return 'f%d' % i, NAMES[i], 'v' + NAMES[i], 'r' + NAMES[i]


def resolve(case, dim):
    """Terms as dictionaries."""
    F = case['fields']
    n = len(F)
    muls = MULS + (CMULS if case['cplx'] else [])
    out = []
    for d in case['terms']:
        a, b = d['row'] % n, d['col'] % n
        ops = options(case, F[a], F[b], d['mode'], dim)
        if not ops:
            b = a
            ops = options(case, F[a], F[b], d['mode'], dim)
        name, args, surf = ops[d['kind'] % len(ops)]
        omega = F[a]['reg'] == 'Omega' and (d['mode'] == 'n' or F[b]['reg'] == 'Omega')
        regs = ['Omega', 'O2'] if omega else ['O2']
        if surf and omega and dim > 1:
            regs = regs + ['S']
        if surf == 'SO':
            if not omega or dim == 1:
                name, args = 'dw_volume_lvf', 'm.f, {t}'
            else:
                regs = ['S']
        out.append({'a': a, 'b': b, 'name': name, 'args': args, 'reg': regs[d['reg'] % len(regs)],
                    'mul': muls[d['mul'] % len(muls)], 'rhs': d['rhs'], 'mode': d['mode'], 'eq': d['eq'],
                    'int': ['i', 'i4'][d['int']]})
    # Every unknown has a term with its test function.
    for a in range(n):
        if not any(t['a'] == a and t['b'] == a and t['mode'] == 'u' for t in out):
            out.append({'a': a, 'b': a, 'name': 'dw_dot', 'args': 'm.c, {t}, {s}', 'reg': F[a]['reg'],
                        'mul': MULS[1], 'rhs': 0, 'mode': 'u', 'eq': a, 'int': 'i4'})
    return out


def term_text(t, plain=False):
    _, u, v, r = field_names(t['b'])
    v = field_names(t['a'])[2]
    s = u if plain else {'u': u, 'r': r, 'h': u + '[-1]', 'd': 'd%s/dt' % u, 'n': ''}[t['mode']]
    return '%s.%s.%s(%s)' % (t['name'], t['int'], t['reg'], t['args'].format(t=v, s=s))


def build(case, mesh, dim, nc, eqs, fs, params, orders=None, hist=False):
    reg, mats, funs = base_conf(case, dim, nc)
    dt = 'complex' if case['cplx'] else 'real'
    fields, variables = {}, {}
    vs = []
    for k, i in enumerate(fs):
        f, u, v, r = field_names(i)
        d = case['fields'][i]
        fields[f] = (dt, 1 if d['nc'] == 's' else dim, d['reg'], d['order'])
        un = ('unknown field', f, orders[k] if orders is not None else k) + ((1,) if hist else ())
        vs += [(u, un), (v, ('test field', f, u))]
        if params:
            vs.append((r, ('parameter field', f, '(set-to-None)')))
    rs = np.random.RandomState(case['perm'])
    for j in rs.permutation(len(vs)):
        variables[vs[j][0]] = vs[j][1]
    conf = dict(regions=reg, fields=fields, variables=variables, materials=mats, equations=eqs,
                integrals={'i': 3, 'i4': 4}, functions=funs,
                solvers={'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {})},
                options={'nls': 'newton', 'ls': 'ls'})
    return pb.problem(None, conf, mesh=mesh)


def run_asm(case):
    from sfepy.solvers.ts import TimeStepper
    dim = int(case['mesh']['kind'][0])
    if dim == 1:
        case = dict(case, fields=[dict(f, nc='s') for f in case['fields']])
    if case['mesh']['kind'][0] == '3':
        case = dict(case, fields=[dict(f, order=f['order'] if i == 0 else 1)
                                  for i, f in enumerate(case['fields'])])
    mesh = gen.mesh(case['mesh'])[0]
    nc = mesh.n_el
    terms = resolve(case, dim)
    n = len(case['fields'])
    if case['blocks']:
        eqs = {'B%d, %s, %s' % (i, field_names(t['a'])[2],
                                field_names(t['b'] if t['mode'] == 'u' else t['a'])[1]):
               render([(t['mul'][0], term_text(t), t['rhs'])] if not t['rhs'] else
                      [(t['mul'][0], term_text(t), 0)], case['fmt'] + i) for i, t in enumerate(terms)}
        for t in terms:
            t['rhs'] = 0
        groups = [[t] for t in terms]
    else:
        eqs, groups = {}, []
        for k in range(3):
            ts_ = [t for t in terms if t['eq'] == k]
            if not ts_:
                continue
            if all(t['rhs'] for t in ts_):
                ts_[0]['rhs'] = 0
            g = [t for t in ts_ if not t['rhs']] + [t for t in ts_ if t['rhs']]
            eqs['e%d' % k] = render([(t['mul'][0], term_text(t), t['rhs']) for t in ts_], case['fmt'] + k)
            groups.append(g)
    ts = TimeStepper(0.0, 1.0, n_step=5)
    ts.set_step(1)
    prob = build(case, mesh, dim, nc, eqs, range(n), True, list(case['ord'])[:n] if n == 3 else
                 [list(case['ord']).index(i) for i in range(n)], hist=True)
    eqo = prob.equations
    rs = np.random.RandomState(case['seed'] + 5)

    def rand(k):
        v = rs.uniform(-1, 1, k)
        return v + 1j * rs.uniform(-1, 1, k) if case['cplx'] else v
    x, h, r = {}, {}, {}
    flds = {i: prob.fields['f%d' % i] for i in range(n)}
    nd = {i: flds[i].n_nod * flds[i].n_components for i in range(n)}
    for i in range(n):
        x[i], h[i], r[i] = rand(nd[i]), rand(nd[i]), rand(nd[i])
    # Contributions of single terms.
    cache = {}

    def single(t):
        key = (t['a'], t['b'] if t['mode'] != 'n' else t['a'], t['name'], t['args'], t['reg'], t['int'])
        if key in cache:
            return cache[key]
        a, b = key[:2]
        fs = [a] if a == b else [a, b]
        text = term_text(t, plain=True)
        for i in fs:
            text += ' + dw_zero.i.%s(%s, %s)' % ((case['fields'][i]['reg'],) + field_names(i)[1:3][::-1])
        p1 = build(case, mesh, dim, nc, {'e': text}, fs, False)
        p1.time_update()
        p1.update_materials(verbose=False)
        v1 = p1.equations.variables
        v1.init_state()
        state = np.concatenate([x[i] for i in fs])
        check(v1.di.n_dof_total == len(state), 'DOFs of a single term problem')
        ev = p1.get_evaluator()
        mtx = ev.eval_tangent_matrix(state).toarray()
        vec = ev.eval_residual(state)
        ia = v1.get_indx(field_names(a)[1])
        ib = v1.get_indx(field_names(b)[1])
        cache[key] = vec[ia].copy(), mtx[ia, ib].copy()
        return cache[key]

    def contribution(t):
        """Vector of rows, matrix or None."""
        vec, mtx = single(t)
        b = t['b']
        m = t['mul'][1] * (-1 if t['rhs'] else 1)
        if t['mode'] == 'u':
            return m * vec, m * mtx
        if t['mode'] == 'r':
            return m * (mtx @ r[b]), None
        if t['mode'] == 'h':
            return m * (mtx @ h[b]), 'h'
        if t['mode'] == 'd':
            return m * (mtx @ (x[b] - h[b])) / ts.dt, m * mtx / ts.dt
        return m * vec, None
    prob.time_update(ts)
    prob.update_materials(verbose=False, ts=ts)
    vv = eqo.variables
    N = vv.di.n_dof_total
    check(N == sum(nd.values()), 'number of DOFs')
    order = sorted(range(n), key=lambda i: (list(case['ord'])[:n] if n == 3 else
                                            [list(case['ord']).index(j) for j in range(n)])[i])
    ofs, k = {}, 0
    for i in order:
        ofs[i] = k
        k += nd[i]
    full = np.empty(N, vv.dtype)
    old = np.empty(N, vv.dtype)
    for i in range(n):
        full[ofs[i]:ofs[i] + nd[i]] = x[i]
        old[ofs[i]:ofs[i] + nd[i]] = h[i]
    vv.init_state(old.copy())
    vv.advance(TimeStepper(0.0, 1.0, n_step=5))
    for i in range(n):
        if field_names(i)[3] in vv.names:
            vv[field_names(i)[3]].set_data(r[i])
    V = np.zeros(N, vv.dtype)
    M = np.zeros((N, N), vv.dtype)
    parts = []
    for g in groups:
        for t in g:
            v, m = contribution(t)
            ra = slice(ofs[t['a']], ofs[t['a']] + nd[t['a']])
            rb = slice(ofs[t['b']], ofs[t['b']] + nd[t['b']])
            V[ra] += v
            M_ = np.zeros((nd[t['a']], N), vv.dtype)
            if m is not None and not isinstance(m, str):
                M_[:, rb] = m
                M[ra, rb] += m
            parts.append((t, v, M_))
    # An unknown at a previous step is not differentiated, unless the code says so: excluded below.
    skip_m = any(t['mode'] == 'h' for t in terms)
    sv = 1 + max(np.abs(v).max() for _, v, _ in parts)
    sm = 1 + max(np.abs(m).max() for _, _, m in parts)
    ev = prob.get_evaluator()
    close(ev.eval_residual(full), V, 1e-10, 1e-11 * sv, 'assembled residual', key='residual')
    for _ in range(2):
        mtx = ev.eval_tangent_matrix(full)
        if not skip_m:
            close(mtx.toarray(), M, 1e-10, 1e-11 * sm, 'assembled matrix', key='matrix')
    rows = {i: slice(ofs[i], ofs[i] + nd[i]) for i in range(n)}
    # By terms.
    mode = ['all', 'terms', 'select', 'names', 'hook', 'evaluate', 'direct'][case['perm'] % 7]
    if case['blocks'] and mode in ('names', 'hook', 'evaluate'):
        mode = 'blocks'
    cls = [mode, 'cplx%d' % case['cplx'], 'n%d' % n]
    flat = [(ie, it, t) for ie, g in enumerate(groups) for it, t in enumerate(g)]
    names = list(eqs)
    if mode == 'terms':
        out = eqo.eval_residuals(full, by_terms=True)
        check(set(out) == {(names[ie], it) for ie, it, _ in flat}, 'terms of residuals', key='bt')
        for (ie, it, t), (_, v, m) in zip(flat, parts):
            close(out[names[ie], it], v, 1e-10, 1e-11 * sv, 'residual of a term', key='bt')
        if not skip_m:
            out = eqo.eval_tangent_matrices(full, prob.mtx_a.copy(), by_terms=True)
            for (ie, it, t), (_, v, m) in zip(flat, parts):
                o = out[names[ie], it]
                close(o.toarray(), m, 1e-10, 1e-11 * sm, 'matrix of a term', key='btm')
    elif mode == 'blocks':
        out = eqo.eval_residuals(full, by_blocks=True)
        outm = eqo.eval_tangent_matrices(full, prob.mtx_a.copy(), by_blocks=True)
        for i, (t, v, m) in enumerate(parts):
            close(out['B%d' % i], v, 1e-10, 1e-11 * sv, 'residual block', key='bb')
            if not skip_m:
                c = t['b'] if t['mode'] == 'u' else t['a']
                close(outm['B%d' % i].toarray(), m[:, rows[c]], 1e-10, 1e-11 * sm, 'matrix block', key='bbm')
        nn = names[len(names) // 2]
        out = eqo.eval_residuals(full, by_blocks=True, names=[nn])
        check(list(out) == [nn.split(',')[0]], 'selected blocks', key='bb')
    elif mode == 'select':
        tn = terms[0]['name']
        V1 = np.zeros(N, vv.dtype)
        M1 = np.zeros((N, N), vv.dtype)
        for t, v, m in parts:
            if t['name'] == tn:
                V1[rows[t['a']]] += v
                M1[rows[t['a']]] += m

        def sel(term):
            return term.name == tn
        close(eqo.eval_residuals(full, select_term=sel), V1, 1e-10, 1e-11 * sv, 'selected terms', key='sel')
        if not skip_m:
            close(eqo.eval_tangent_matrices(full, prob.mtx_a.copy(), select_term=sel).toarray(), M1,
                  1e-10, 1e-11 * sm, 'matrix of selected terms', key='sel')
    elif mode == 'names':
        eqo.set_state(full)
        ie = case['perm'] % len(names)
        V1 = np.zeros(N, vv.dtype)
        for (je, _, t), (_, v, _) in zip(flat, parts):
            if je == ie:
                V1[rows[t['a']]] += v
        from sfepy.discrete.evaluate import eval_equations
        for nn in (names[ie], [names[ie]]):
            close(eval_equations(eqo, vv, names=nn, mode='weak'), V1, 1e-10, 1e-11 * sv,
                  'residual of one equation', key='names')
        close(prob.eval_equations(mode='weak'), V, 1e-10, 1e-11 * sv, 'eval_equations', key='names')
        if not skip_m:
            close(prob.eval_equations(mode='weak', dw_mode='matrix', verbose=False).toarray(), M, 1e-10,
                  1e-11 * sm, 'eval_equations matrix', key='names')
    elif mode == 'hook':
        seen = []

        def asm(eq, it, term, obj, vals, iels, mode='vector', diff_var=None):
            seen.append((eq.name, it, term.name))
            return term.assemble_to(obj, 2 * vals, iels, mode=mode, diff_var=diff_var)
        close(eqo.eval_residuals(full, assemble=asm), 2 * V, 1e-10, 1e-10 * sv, 'assembling function',
              key='hook')
        check(seen == [(names[ie], it, t['name']) for ie, it, t in flat], 'order of terms assembled %s',
              seen, key='hook')
    elif mode == 'evaluate':
        eqo.set_state(full)
        ie = case['perm'] % len(names)
        fs = sorted({t['a'] for t in groups[ie]} | {t['b'] for t in groups[ie] if t['mode'] in 'uhd'})
        # Square systems only.
        if set(fs) == {t['a'] for t in groups[ie]} and not any(t['mode'] in 'rhd' for t in groups[ie]):
            for dm in ('vector', 'matrix'):
                out, ov = prob.evaluate(eqs[names[ie]], mode='weak', dw_mode=dm, ret_variables=True,
                                        verbose=False)
                R = np.zeros(sum(nd[i] for i in fs), vv.dtype)
                Q = np.zeros((len(R), len(R)), vv.dtype)
                for (je, _, t), (_, v, m) in zip(flat, parts):
                    if je == ie:
                        ra = ov.get_indx(field_names(t['a'])[1])
                        R[ra] += v
                        for i in fs:
                            Q[ra, ov.get_indx(field_names(i)[1])] += m[:, rows[i]]
                if dm == 'vector':
                    close(out, R, 1e-10, 1e-11 * sv, 'weak expression', key='expr')
                else:
                    close(out.toarray(), Q, 1e-10, 1e-11 * sm, 'matrix of a weak expression', key='expr')
    elif mode == 'direct':
        # Equations of terms combined as objects.
        from sfepy.discrete import Equation, Equations
        from sfepy.terms import Term
        new = []
        for ie, g in enumerate(groups):
            tot = None
            for t in g:
                args = {nn: vv[nn] for nn in [q.strip() for q in t['args'].format(
                    t=field_names(t['a'])[2], s=field_names(t['b'])[1 if t['mode'] != 'r' else 3])
                    .split(',')] if nn in vv.names}
                tx = term_text(t)
                nm_, rest = tx.split('(', 1)
                if 'm.' in rest:
                    args['m'] = eqo.materials['m']
                obj = Term.new(nm_.split('.')[0] + '(' + rest, prob.integrals[t['int']],
                               prob.domain.regions[t['reg']], **args)
                m = t['mul'][1]
                how = (case['perm'] // 7 + len(new)) % 3
                obj = m * obj if how else obj * m
                if tot is None:
                    tot = -obj if t['rhs'] else +obj
                else:
                    tot = tot - obj if t['rhs'] else tot + obj
            if case['perm'] % 2:
                tot = 2.0 * tot
                tot = tot * 0.5
            new.append(Equation('n%d' % ie, tot))
        e2 = Equations(new)
        e2.time_update(ts, None, None, None, prob.functions)
        e2.time_update_materials(ts, verbose=False)
        v2 = e2.variables
        old2 = np.empty_like(full)
        for i in range(n):
            old2[v2.get_indx(field_names(i)[1])] = h[i]
        v2.init_state(old2)
        v2.advance(TimeStepper(0.0, 1.0, n_step=5))
        full2 = np.empty_like(full)
        pos = {i: v2.get_indx(field_names(i)[1]) for i in range(n)}
        V2 = np.empty_like(V)
        for i in range(n):
            full2[pos[i]] = x[i]
            V2[pos[i]] = V[rows[i]]
        close(e2.eval_residuals(full2), V2, 1e-10, 1e-11 * sv, 'equations of combined terms', key='terms')
        if not skip_m:
            M2 = np.empty_like(M)
            for i in range(n):
                for j in range(n):
                    M2[pos[i], pos[j]] = M[rows[i], rows[j]]
            o = e2.eval_tangent_matrices(full2, e2.create_matrix_graph(verbose=False))
            close(o.toarray(), M2, 1e-10, 1e-11 * sm, 'matrix of combined terms', key='terms')
    deps = eqo.get_variable_dependencies()
    want = {}
    for t in terms:
        s = want.setdefault(field_names(t['a'])[2], set())
        if t['mode'] in 'uhd':
            s.add(field_names(t['b'])[1])
    check({k: set(v) - {'ru', 'rp', 'rw'} for k, v in deps.items()} == want,
          'variable dependencies: %s %s', deps, want, key='deps')
    return {'nontrivial': len(terms) > 1 or terms[0]['mul'][1] != 1.0, 'classes': cls}


# ------------------------------------------------------------------ parsing

def parse_strategy(item):
    ident = st.text('abcdeuvwxyzABC_', min_size=1, max_size=6).filter(
        lambda s: s[0] not in '_d' and not s.startswith('tr') and '__' not in s)
    arg = st.tuples(st.sampled_from(['var', 'var', 'mat', 'hist', 'dt', 'tr', 'trr']), ident, ident,
                    st.integers(-3, 3))
    term = st.fixed_dictionaries({
        'name': ident, 'args': st.lists(arg, min_size=1, max_size=4),
        'place': st.sampled_from(['full', 'full', 'region', 'flag']),
        'integral': st.sampled_from(['i', 'i1', 'iAB', 'a', '2', '13', 'i0x']),
        'region': ident, 'mul': st.integers(0, 100), 'rhs': st.booleans()})
    return st.fixed_dictionaries({'terms': st.lists(term, min_size=1, max_size=5),
                                  'fmt': st.integers(0, 10 ** 6)})


def run_parse(case):
    from sfepy.discrete.equations import get_expression_arg_names, parse_definition
    from sfepy.terms.terms import create_arg_parser
    rs = np.random.RandomState(case['fmt'] + 1)
    muls = MULS + CMULS
    parts, want = [], []
    allargs = set()
    for t in case['terms']:
        name = 'dw_' + t['name']
        reg = 'R' + t['region']
        head = {'full': '%s.%s.%s' % (name, t['integral'], reg), 'region': '%s.%s' % (name, reg),
                'flag': '%s.%s.%s.a' % (name, t['integral'], reg)}[t['place']]
        al, stripped = [], []
        for kind, a, b, k in t['args']:
            a, b = 'q' + a, 'n' + b
            al.append({'var': a, 'mat': 'm%s.%s' % (a, b), 'hist': '%s[%d]' % (a, k), 'dt': 'd%s/dt' % a,
                       'tr': 'tr(%s)' % a, 'trr': 'tr(%s, %s)' % (b, a)}[kind])
            stripped.append((kind, a, b, k))
        text = head + sep(rs.randint(2)) + '(' + sep(rs.randint(4))
        text += (sep(rs.randint(3)) + ',' + sep(rs.randint(4))).join(al) + sep(rs.randint(4)) + ')'
        m = muls[t['mul'] % len(muls)]
        parts.append((m[0], text, t['rhs']))
        want.append((name, {'region': 'a'}.get(t['place'], t['integral']), reg,
                     'a' if t['place'] == 'flag' else '', m[1], al, stripped, t['rhs']))
    if all(p[2] for p in parts):
        parts[0] = parts[0][:2] + (False,)
        want[0] = want[0][:7] + (False,)
    order = [i for i, p in enumerate(parts) if not p[2]] + [i for i, p in enumerate(parts) if p[2]]
    text = render(parts, case['fmt'])
    out = parse_definition(text)
    check(len(out) == len(want), 'number of terms of %r', text, key='parse')
    for td, i in zip(out, order):
        name, integral, reg, flag, mul, al, args, rhs = want[i]
        check((td.name, td.integral, td.region, td.flag) == (name, integral, reg, flag),
              'term %r parsed as %s', text, (td.name, td.integral, td.region, td.flag), key='parse')
        close(np.array([td.sign]), np.array([-mul if rhs else mul]), 0, 1e-14, 'multiplier in %r' % text,
              key='mul')
        got = create_arg_parser().parseString(td.args)
        check(len(got) == len(args), 'arguments of %r: %s', text, td.args, key='args')
        for g, (kind, a, b, k) in zip(got, args):
            g = g.asList()
            w = {'var': [a, 0], 'mat': ['m%s.%s' % (a, b), 0], 'hist': [a, k], 'dt': ['d', [a, 0], 'dt'],
                 'tr': ['tr', None, [a, 0]], 'trr': ['tr', b, [a, 0]]}[kind]
            check(g == w, 'argument %s of %r parsed as %s', w, text, g, key='args')
    # Formatting does not matter.
    out2 = parse_definition(render(parts, case['fmt'] + 17))
    key = [(t.name, t.integral, t.region, t.flag, t.sign, ''.join(t.args.split())) for t in out]
    check(key == [(t.name, t.integral, t.region, t.flag, t.sign, ''.join(t.args.split())) for t in out2],
          'formatting of %r', text, key='format')
    simple = [p for p, w in zip(parts, want) if all(a[0] in ('var', 'mat') for a in w[6])]
    if simple and not all(p[2] for p in simple):
        names = get_expression_arg_names(render(simple, 3))
        for w in want:
            if all(a[0] in ('var', 'mat') for a in w[6]):
                allargs |= {('m' + a[1]) if a[0] == 'mat' else a[1] for a in w[6]}
        check(set(names) == allargs, 'argument names %s, %s expected', names, allargs, key='names')
    return {'nontrivial': len(parts) > 1 or parts[0][0] != '',
            'classes': ['rhs%d' % any(p[2] for p in parts)]}


# ------------------------------------------------------------------ expressions

def expr_strategy(item):
    cc = {'1_2': 6, '2_3': 3, '2_4': 3, '3_4': 2, '3_8': 2}
    term = st.fixed_dictionaries({'kind': st.integers(0, 20), 'reg': st.sampled_from(['Omega', 'O2', 'S']),
                                  'mul': st.integers(0, 40), 'rhs': st.booleans(), 'int': st.integers(0, 1)})
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=cc[item]), 'seed': st.integers(0, 10 ** 6),
        'order': st.sampled_from([1, 2]), 'terms': st.lists(term, min_size=1, max_size=4),
        'fmt': st.integers(0, 10 ** 6), 'how': st.integers(0, 5)})


def run_expr(case):
    """Sums of integrals equal numbers obtained by numpy from polynomial data."""
    dim = int(case['mesh']['kind'][0])
    mesh = gen.mesh(case['mesh'])[0]
    nc = mesh.n_el
    reg, mats, funs = base_conf(case, dim, nc)
    conf = dict(regions=reg, fields={'fu': ('real', 1, 'Omega', case['order']), 'fw': ('real', dim, 'Omega', 1)},
                variables={'u': ('unknown field', 'fu', 0), 'v': ('test field', 'fu', 'u'),
                           'r': ('parameter field', 'fu', '(set-to-None)'),
                           'w': ('unknown field', 'fw', 1), 'z': ('test field', 'fw', 'w'),
                           's': ('parameter field', 'fw', '(set-to-None)')},
                materials=mats, integrals={'i': 4, 'i4': 5}, functions=funs,
                equations={'a': 'dw_dot.i.Omega(v, u)', 'b': 'dw_dot.i.Omega(z, w)'},
                solvers={'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {})},
                options={'nls': 'newton', 'ls': 'ls'})
    prob = pb.problem(None, conf, mesh=mesh)
    prob.time_update()
    rs = np.random.RandomState(case['seed'] + 3)
    g = gen.domain(case['mesh'])
    del g
    au, bu = rs.uniform(-1, 1), rs.uniform(-1, 1, dim)
    ar, br = rs.uniform(-1, 1), rs.uniform(-1, 1, dim)
    aw, bw = rs.uniform(-1, 1, dim), rs.uniform(-1, 1, (dim, dim))
    cu = prob.fields['fu'].get_coor()
    cw = prob.fields['fw'].get_coor()
    du, dr, dw = au + cu @ bu, ar + cu @ br, (aw + cw @ bw.T).ravel()
    m = conf['materials']['m'][0]
    coors = mesh.coors

    def moments(rname):
        """Quadrature points and weights of a region."""
        if rname != 'S':
            X, W = [], []
            sel = funs['sel'][0](None) if rname == 'O2' else np.arange(nc)
            desc = mesh.descs[0]
            conn = mesh.get_conn(desc)
            for c in sel:
                x, w = gen.physical_quad(coors, conn[c:c + 1], desc, 4)[:2]
                X.append(np.asarray(x).reshape(-1, dim))
                W.append(np.asarray(w).ravel())
            return np.concatenate(X), np.concatenate(W)
        return None, None
    total, parts = 0.0, []
    vec_terms = 0
    for t in case['terms']:
        rn = t['reg']
        muls = MULS
        mt, mv = muls[t['mul'] % len(muls)]
        it = ['i', 'i4'][t['int']]
        if rn == 'S':
            rn = 'Omega' if dim == 1 else 'S'
        if rn == 'S':
            # Divergence theorem: flux of w through the surface is the integral of div w.
            X, W = moments('Omega')
            opts = [('ev_integrate_mat', None)]
            text = 'ev_integrate.%s.S(s)' % it
            nm_, val = 'dw_surface_flux', None
            text = 'ev_surface_moment'  # placeholder, replaced below
            text = 'ev_integrate.%s.S(m.c, s)' % it
            del opts, nm_
            text = 'dw_surface_ltr.%s.S(s)' % it if 0 else None
            rn = 'Omega'
        X, W = moments(rn)
        U, R = au + X @ bu, ar + X @ br
        Wv = aw + X @ bw.T
        o = [('ev_integrate.%s.%s(u)', (U * W).sum()),
             ('ev_integrate.%s.%s(m.c, u)', m['c'] * (U * W).sum()),
             ('dw_dot.%s.%s(r, u)', (U * R * W).sum()),
             ('dw_dot.%s.%s(m.c, u, r)', m['c'] * (U * R * W).sum()),
             ('dw_laplace.%s.%s(m.c, r, u)', m['c'] * (bu @ br) * W.sum()),
             ('ev_div.%s.%s(w)', np.trace(bw) * W.sum()),
             ('ev_volume.%s.%s(u)', W.sum()),
             ('dw_dot.%s.%s(w, s)', (Wv * Wv * W[:, None]).sum()),
             ('dw_diffusion.%s.%s(m.K, r, u)', (br @ m['K'] @ bu) * W.sum()),
             ('dw_volume_lvf.%s.%s(m.g, r)', None),
             ('dw_stokes.%s.%s(w, r)', (np.trace(bw) * R * W).sum())]
        o = [q for q in o if q[1] is not None]
        if dim == 1:
            o = [q for q in o if 'w' not in q[0].split('(')[1]]
        text, val = o[t['kind'] % len(o)]
        parts.append((mt, text % (it, rn), t['rhs'], mv, val))
    if all(p[2] for p in parts):
        parts[0] = parts[0][:2] + (False,) + parts[0][3:]
    total = sum(p[3] * p[4] * (-1 if p[2] else 1) for p in parts)
    sc = 1e-9 * (1 + sum(abs(p[3] * p[4]) for p in parts))
    text = render([p[:3] for p in parts], case['fmt'])
    pv = prob.get_variables()
    out = []
    how = case['how']
    if how % 3 == 0:
        # Data of the problem variables.
        pv['u'].set_data(du)
        pv['w'].set_data(dw)
        rv = prob.create_variables(['r', 's'])
        rv['r'].set_data(dr)
        rv['s'].set_data(dw)
        kw = {n: rv[n] for n in ('r', 's')}
        out.append(prob.evaluate(text, verbose=False, **kw))
        out.append(prob.evaluate(text, verbose=False, copy_materials=True, var_dict=dict(kw)))
    elif how % 3 == 1:
        vs = prob.create_variables(['u', 'r', 'w', 's'])
        for n, d in (('u', du), ('r', dr), ('w', dw), ('s', dw)):
            vs[n].set_data(d)
        out.append(prob.evaluate(text, verbose=False, var_dict=vs.as_dict()))
    else:
        pv['u'].set_data(0 * du)
        pv['w'].set_data(0 * dw)
        eqs, ev = prob.create_evaluable(text, verbose=False, try_equations=False)
        from sfepy.discrete.evaluate import eval_equations
        for f in (2.0, 1.0):
            for n, d in (('u', du), ('r', dr), ('w', dw), ('s', dw)):
                if n in ev.names:
                    ev[n].set_data(f * d)
            v = eval_equations(eqs, ev)
        out.append(v)
        # Sum of element contributions.
        if len(parts) == 1:
            ee = eval_equations(eqs, ev, mode='el_eval')
            out.append(np.sum(ee))
            vol = moments(parts[0][1].split('(')[0].split('.')[2])[1]
            del vol
    for o in out:
        close(np.array([o]), np.array([total]), 1e-9, sc, 'value of %r' % text, key='value')
    del vec_terms
    return {'nontrivial': len(parts) > 1 or parts[0][3] != 1.0, 'classes': ['how%d' % (how % 3)]}


SUBS = [
    Sub('assembly', asm_strategy, run_asm, n=60, items=['1_2', '2_3', '2_4', '3_4', '3_8']),
    Sub('parse', parse_strategy, run_parse, n=120, items=['any']),
    Sub('expression', expr_strategy, run_expr, n=25, items=['1_2', '2_3', '2_4', '3_4', '3_8']),
]
