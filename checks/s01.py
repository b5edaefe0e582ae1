"""S01: linear solvers against the residual and a dense reference, for call histories."""
import contextlib
import io
import re
import warnings

import numpy as np
import scipy.sparse as sps
import hypothesis.strategies as st

from harness import Skip, Sub, check, close

from sfepy.base.base import Struct, IndexedStruct, output
import sfepy.discrete  # noqa
from sfepy.solvers import Solver
from sfepy.solvers import ls

PROP = 'S01'
RULE = ('Cases: (solver, options, sequence of calls), each call with a new, repeated, copied or '
        'in-place modified sparse matrix (SPD, symmetric indefinite, nonsymmetric, complex; '
        'several sizes and patterns), a right-hand side, an initial guess, presolve and clear '
        'calls.  Oracle: residual of the returned vector and a dense solution; matrix and '
        'right-hand side unchanged; reported status.  Non-trivial: at least two calls.')
ASSUMPTIONS = ['petsc is not installed', 'regular matrices with condition number below 1e6']

warnings.simplefilter('ignore')


def matrix(m):
    """A well-conditioned sparse matrix of a given class."""
    rng = np.random.default_rng(m['seed'])
    n = m['n']
    nz = rng.random((n, n)) < m['dens']
    a = np.where(nz, rng.uniform(-1, 1, (n, n)), 0.0)
    cls = m['cls']
    if cls in ('cgen', 'csym', 'herm'):
        a = a + 1j * np.where(nz, rng.uniform(-1, 1, (n, n)), 0.0)
    np.fill_diagonal(a, 0)
    if cls in ('spd', 'sym', 'csym'):
        a = np.triu(a)
        a = a + a.T
    elif cls == 'herm':
        a = np.triu(a)
        a = a + a.conj().T
    elif cls == 'patsym':
        nz = np.triu(nz)
        nz = nz | nz.T
        a = np.where(nz, rng.uniform(0.1, 1, (n, n)), 0.0)
        np.fill_diagonal(a, 0)
    elif cls == 'diag':
        a[:] = 0
    d = np.abs(a).sum(1) + rng.uniform(0.5, 2, n)
    if cls in ('sym', 'gen', 'patsym', 'csym', 'cgen'):
        d = d * rng.choice([-1, 1], n)
        if m['perm'] and cls in ('gen', 'cgen'):
            np.fill_diagonal(a, d)
            a = a[rng.permutation(n)]
            d = None
    if d is not None:
        np.fill_diagonal(a, d)
    a = a * m['scale']
    sp = sps.coo_array(a)
    if m['zeros'] and n > 1:
        # Explicitly stored zeros, as in assembled matrices.
        ii, jj = rng.integers(0, n, (2, 4))
        sp = sps.coo_array((np.r_[sp.data, np.zeros(8)],
                            (np.r_[sp.row, ii, jj], np.r_[sp.col, jj, ii])), shape=(n, n))
    fmt = m['fmt']
    out = sp.tocsr()
    out.sum_duplicates()
    out.sort_indices()
    if fmt == 'csc':
        out = out.tocsc()
    elif fmt == 'csr_matrix':
        out = sps.csr_matrix(out)
    return out


REAL = ['spd', 'sym', 'gen', 'patsym', 'diag']
CPLX = ['cgen', 'csym', 'herm']
DIRECT = {
    'ls.scipy_direct': REAL + CPLX,
    'ls.scipy_superlu': REAL + CPLX,
    'ls.scipy_umfpack': REAL + CPLX,
    'ls.mumps': REAL + CPLX,
    'ls.auto_direct': REAL + CPLX,
    'ls.cholesky': ['spd', 'diag', 'herm'],
    'ls.pypardiso': REAL,
}


def mat_st(classes, nmax=24):
    return st.fixed_dictionaries({
        'cls': st.sampled_from(classes), 'n': st.integers(1, nmax), 'seed': st.integers(0, 10**6),
        'dens': st.sampled_from([0.1, 0.3, 0.8]), 'perm': st.booleans(),
        'scale': st.sampled_from([1.0, 1e-6, 1e6]), 'zeros': st.booleans(),
        'fmt': st.sampled_from(['csr', 'csr', 'csr', 'csc', 'csr_matrix'])})


def seq_strategy(kind):
    step = st.fixed_dictionaries({
        'op': st.sampled_from(['new', 'new', 'same', 'rhs', 'inplace', 'one', 'copy', 'presolve',
                               'clear', 'back']),
        'mat': mat_st(DIRECT[kind]), 'seed': st.integers(0, 10**6), 'where': st.integers(0, 99)})
    return st.fixed_dictionaries({
        'kind': st.just(kind), 'presolve': st.booleans(), 'first': mat_st(DIRECT[kind]),
        'method': st.sampled_from(['auto', 'umfpack', 'superlu']), 'init': st.booleans(),
        'status': st.booleans(), 'steps': st.lists(step, min_size=1, max_size=7)})


def rhs_of(mtx, seed):
    rng = np.random.default_rng(seed + 17)
    b = rng.uniform(-1, 1, mtx.shape[0])
    if mtx.dtype.kind == 'c':
        b = b + 1j * rng.uniform(-1, 1, mtx.shape[0])
    return b * 10.0 ** rng.integers(-3, 4)


def verify(what, mtx, dense, b, x, tol=1e-9, order=None):
    check(np.shape(x) == b.shape, '%s: shape %s', what, np.shape(x))
    x = np.asarray(x)
    check(np.isfinite(x).all(), '%s: not finite', what)
    ref = np.linalg.solve(dense, b)
    sc = np.abs(dense).sum(1).max() * np.abs(ref).max() + np.abs(b).max()
    res = np.abs(dense @ x - b).max()
    check(res <= tol * sc, '%s: residual %.2e (scale %.2e)', what, res, sc)
    close(x, ref, tol * 100, 0, what + ': solution')


def run_direct(case):
    kind = case['kind']
    conf = {'name': 'ls', 'kind': kind}
    if kind != 'ls.pypardiso':
        conf['use_presolve'] = case['presolve']
    else:
        case = dict(case, presolve=False)
    if kind == 'ls.scipy_direct':
        conf['method'] = case['method']
    if kind == 'ls.pypardiso' and min([m['n'] for m in [case['first']] + [
            s['mat'] for s in case['steps']]]) == 1:
        raise Skip('pypardiso squeezes systems of size one')
    mtx = matrix(case['first'])
    kw = {'mtx': mtx} if case['init'] else {}
    solver = Solver.any_from_conf(Struct(**conf), **kw)
    if kind == 'ls.auto_direct':
        check(solver.conf.kind in ('ls.mumps', 'ls.scipy_umfpack', 'ls.scipy_superlu'),
              'selected %s', solver.conf.kind)
        check(bool(solver.conf.use_presolve) == case['presolve'], 'auto: options lost')
    b = rhs_of(mtx, 0)
    prev = []
    ncall = 0
    classes = {case['first']['cls']}

    def call(what):
        nonlocal ncall
        dense = mtx.toarray()
        b0 = b.copy()
        m0 = mtx.copy()
        kk = {}
        if not (case['init'] and mtx is kw['mtx'] and ncall % 2 == 0):
            kk['mtx'] = mtx
        status = IndexedStruct() if case['status'] else None
        x = solver(b, status=status, **kk)
        ncall += 1
        verify(what, mtx, dense, b0, x)
        check((b == b0).all(), '%s: right-hand side changed', what)
        check((mtx.data == m0.data).all() and (mtx.toarray() == dense).all(),
              '%s: matrix changed', what)
        if status is not None:
            check(status['time'] >= 0 and status['n_iter'] == -1, '%s: status %s', what, status)
    call('first')
    for ii, step in enumerate(case['steps']):
        op = step['op']
        rng = np.random.default_rng(step['seed'])
        if op == 'new':
            prev.append(mtx)
            mtx = matrix(step['mat'])
            classes.add(step['mat']['cls'])
            b = rhs_of(mtx, step['seed'])
        elif op == 'back' and prev:
            mtx = prev[step['where'] % len(prev)]
            b = rhs_of(mtx, step['seed'])
        elif op == 'rhs':
            b = rhs_of(mtx, step['seed'])
        elif op == 'inplace':
            mtx.data *= 1.5 + step['where'] / 20.0
        elif op == 'one':
            # A single changed diagonal entry, away from singularity.
            aux = mtx.tocoo()
            k = step['where'] % mtx.shape[0]
            jj = np.nonzero((aux.row == k))[0]
            jj = jj[np.abs(aux.data[jj]).argmax()]
            key = (aux.row[jj], aux.col[jj])
            mtx[key] = aux.data[jj] * 1.75
        elif op == 'copy':
            mtx = mtx.copy()
        elif op == 'presolve':
            solver.presolve(mtx)
        elif op == 'clear':
            solver.clear()
        call('call %d after %s' % (ii + 1, op))
    return dict(nontrivial=True, classes=sorted(classes) + [kind, 'presolve=%s' % case['presolve']]
                + sorted(set(s['op'] for s in case['steps'])))


# ---------------------------------------------------------------- iterative

# method: (matrix class, callback argument)
SPI = {'cg': 'spd', 'cgs': 'dom', 'bicg': 'dom', 'bicgstab': 'dom', 'gmres': 'dom',
       'lgmres': 'dom', 'minres': 'sym', 'qmr': 'dom', 'gcrotmk': 'dom', 'tfqmr': 'dom'}
KRY = {'cg': 'spd', 'bicgstab': 'dom', 'cgne': 'dom', 'cgnr': 'dom', 'cr': 'spd',
       'fgmres': 'dom', 'gmres': 'dom', 'minimal_residual': 'spd', 'steepest_descent': 'spd'}
AMG = {'smoothed_aggregation_solver': 'lap', 'ruge_stuben_solver': 'lap'}
ITER = [('ls.scipy_iterative', k, v, None) for k, v in SPI.items()] \
    + [('ls.auto_iterative', 'cg', 'spd', None)] \
    + [('ls.pyamg_krylov', k, v, None) for k, v in KRY.items()] \
    + [('ls.pyamg', k, v, acc) for k, v in AMG.items() for acc in (None, 'cg', 'gmres')]


def imat(cls, n, seed):
    rng = np.random.default_rng(seed)
    if cls == 'lap':
        a = np.diag(np.full(n, 2.0)) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)
        a = a + np.diag(rng.uniform(0.0, 0.5, n))
        return sps.csr_array(a * rng.uniform(0.5, 3))
    a = np.where(rng.random((n, n)) < 0.3, rng.uniform(-1, 1, (n, n)), 0)
    np.fill_diagonal(a, 0)
    if cls in ('spd', 'sym'):
        a = np.triu(a)
        a = a + a.T
    d = 1.6 * np.abs(a).sum(1) + rng.uniform(1, 2, n)
    if cls == 'sym':
        d = d * rng.choice([-1, 1], n)
    np.fill_diagonal(a, d)
    return sps.csr_array(a)


def it_strategy(item):
    return st.fixed_dictionaries({
        'item': st.just(list(item)), 'n': st.integers(2, 30), 'seed': st.integers(0, 10**6),
        'eps_r': st.sampled_from([1e-4, 1e-8, 1e-10]), 'eps_a': st.sampled_from([1e-12, 1e-3]),
        'over': st.booleans(), 'precond': st.booleans(), 'x0': st.sampled_from(
            ['none', 'zero', 'rand', 'exact']),
        'limit': st.sampled_from([None, None, None, 1, 2]),
        'cb': st.sampled_from(['no', 'conf', 'call']), 'verbose': st.sampled_from([False, 1, 2, 3]),
        'steps': st.lists(st.sampled_from(['rhs', 'inplace', 'new', 'same', 'small']), max_size=4)})


def captured(fun):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        output.set_output(quiet=False, combined=True)
        try:
            ret = fun()
        finally:
            output.set_output(quiet=True)
    return ret, buf.getvalue()


def run_iter(case):
    kind, method, cls, accel = case['item']
    n = case['n']
    rng = np.random.default_rng(case['seed'])
    mtx = imat(cls, n, case['seed'])
    big = 60 * n + 3000 if method in ('minimal_residual', 'steepest_descent') else 20 * n + 200
    i_max = big if case['limit'] is None else case['limit']
    count = [0, None]
    pcalls = []

    def callback(x):
        count[0] += 1
        count[1] = np.array(x)

    ctx = Struct(name='ctx')

    def setup_precond(m, context):
        pcalls.append((m, context))
        d = m.diagonal()
        if cls == 'sym':
            d = np.abs(d)
        return sps.dia_array((1.0 / d[None], [0]), shape=m.shape).tocsr()
    conf = dict(name='it', kind=kind, method=method, verbose=case['verbose'])
    kwc = {}
    tols = dict(eps_r=case['eps_r'], i_max=i_max)
    has_a = kind in ('ls.scipy_iterative', 'ls.auto_iterative')
    if has_a:
        tols['eps_a'] = case['eps_a']
    if case['over']:
        kwc.update(tols)
        conf.update(eps_r=0.9, i_max=3)
    else:
        conf.update(tols)
    if kind == 'ls.pyamg':
        conf['accel'] = accel
        precond = False
    else:
        precond = case['precond'] and method not in ('qmr', 'tfqmr', 'bicg')
        if precond:
            conf['setup_precond'] = setup_precond
    if kind == 'ls.auto_iterative':
        conf.pop('method')
    if case['cb'] == 'conf':
        conf['callback'] = callback
    elif case['cb'] == 'call':
        kwc['callback'] = callback
    solver, _ = captured(lambda: Solver.any_from_conf(Struct(**conf), context=ctx))
    b = rng.uniform(-1, 1, n)
    nconv = 0
    for step in ['first'] + case['steps']:
        if step == 'rhs':
            b = rng.uniform(-1, 1, n)
        elif step == 'small':
            b = rng.uniform(-1, 1, n) * 1e-2
        elif step == 'inplace':
            mtx.data *= 2.5
            k = mtx.indptr[:-1]
        elif step == 'new':
            mtx = imat(cls, n, int(rng.integers(0, 10**6)))
        dense = mtx.toarray()
        exact = np.linalg.solve(dense, b)
        x0 = {'none': None, 'zero': np.zeros(n), 'rand': rng.uniform(-1, 1, n),
              'exact': exact.copy()}[case['x0']]
        x00 = None if x0 is None else x0.copy()
        count[:] = [0, None]
        del pcalls[:]
        status = IndexedStruct()
        b0 = b.copy()
        np.random.seed(7)
        x, out = captured(lambda: solver(b, x0=x0, mtx=mtx, status=status, **kwc))
        check((b == b0).all() and (mtx.toarray() == dense).all(), '%s: data changed', step)
        if x00 is not None:
            check((x0 == x00).all(), '%s: initial guess changed', step)
        x = np.asarray(x)
        check(x.shape == b.shape, 'shape %s', x.shape)
        if not np.isfinite(x).all() and kind == 'ls.pyamg_krylov':
            import pyamg.krylov
            np.random.seed(7)
            y = getattr(pyamg.krylov, method)(mtx, b, x0=x0, tol=case['eps_r'], maxiter=i_max,
                                              M=setup_precond(mtx, ctx) if precond else None)[0]
            if not np.isfinite(y).all():
                raise Skip('breakdown of the method inside pyamg')
        res = np.linalg.norm(dense @ x - b)
        tol = case['eps_r'] * np.linalg.norm(b)
        if method == 'tfqmr' and x0 is not None:  # Relative to the initial residual.
            tol = max(tol, case['eps_r'] * np.linalg.norm(dense @ x0 - b))
        if kind in ('ls.pyamg_krylov', 'ls.pyamg'):
            # Preconditioned residuals and energy norms are used there.
            tol = tol * 10 * np.linalg.cond(dense)
        elif method in ('minres', 'lgmres', 'gmres', 'qmr', 'gcrotmk', 'tfqmr'):
            tol = tol * 10 * np.linalg.cond(dense)
        if has_a:
            tol = max(tol, case['eps_a'])
        tol = tol * 1.01 + 1e-14 * np.abs(dense).max()
        it = status['n_iter']
        check(0 <= it <= i_max * (n if 'gmres' in method or method == 'gcrotmk' else 1) + 2,
              '%s: %s iterations with i_max %d', step, it, i_max)
        if case['limit'] is None:
            check(res <= tol, '%s: residual %.2e above tolerance %.2e', step, res, tol)
            nconv += 1
        if case['cb'] != 'no':
            check(count[0] == it, '%s: %d callback calls in %d iterations', step, count[0], it)
        if precond:
            check(len(pcalls) == 1 and pcalls[0][0] is mtx and pcalls[0][1] is ctx,
                  '%s: preconditioner setup calls %d', step, len(pcalls))
        if case['x0'] == 'exact' and has_a and method in ('cg', 'bicgstab', 'cgs', 'bicg'):
            check(it <= 1, '%s: %d iterations from the exact solution', step, it)
        if kind in ('ls.scipy_iterative', 'ls.pyamg_krylov') and case['verbose']:
            mm = re.search(r'convergence: (-?\d+) \((.*), (\d+) iterations\)', out)
            check(mm is not None, '%s: no convergence report in %r', step, out)
            check(int(mm.group(3)) == it, '%s: reported iterations', step)
            said = mm.group(2) == 'successful exit'
            check((int(mm.group(1)) == 0) == said, '%s: report %s', step, mm.groups())
            if said:
                check(res <= tol, '%s: convergence reported with residual %.2e above %.2e',
                      step, res, tol)
            elif case['limit'] is None:
                check(False, '%s: no convergence reported: %s', step, mm.groups())
        if case['verbose'] == 3 and has_a and method in ('cg', 'bicgstab', 'bicg') \
                and case['cb'] != 'no' and it:
            val = float(re.findall(r'\|Ax-b\| = (\S+)', out)[-1])
            close(val, np.linalg.norm(dense @ count[1] - b), 1e-5, 1e-14, 'reported |Ax-b|')
    return dict(nontrivial=len(case['steps']) > 0,
                classes=[kind, method, case['cb'], 'x0=' + case['x0'], 'limit=%s' % case['limit'],
                         'verbose=%s' % case['verbose']] + case['steps'])


# ---------------------------------------------------------------- Schur, helpers

def schur_strategy(item):
    return st.fixed_dictionaries({
        'mats': st.lists(mat_st(['spd', 'sym', 'gen', 'patsym']), min_size=1, max_size=3),
        'cuts': st.lists(st.integers(0, 99), min_size=1, max_size=3),
        'sel': st.integers(1, 14), 'presolve': st.booleans(), 'n': st.integers(3, 20)})


def run_schur(case):
    n = case['n']
    cuts = sorted(set([0, n] + [1 + c % (n - 1) for c in case['cuts']]))
    indx = {'v%d' % i: slice(cuts[i], cuts[i + 1], None) for i in range(len(cuts) - 1)}
    names = [k for i, k in enumerate(sorted(indx)) if case['sel'] >> i & 1][:len(indx) - 1]
    if not names:
        names = ['v0']
    ctx = Struct(equations=Struct(variables=Struct(adi=Struct(indx=indx))))
    solver = Solver.any_from_conf(Struct(name='s', kind='ls.schur_mumps', schur_variables=names,
                                         use_presolve=case['presolve']), context=ctx)
    for ii, m in enumerate(case['mats']):
        mtx = matrix(dict(m, n=n, fmt='csr', perm=False))
        for jj in range(2):
            b = rhs_of(mtx, ii + 5 * jj)
            x = solver(b, mtx=mtx)
            verify('Schur %s, matrix %d, rhs %d' % (names, ii, jj), mtx, mtx.toarray(), b, x)
    return dict(nontrivial=len(indx) > 1, classes=['%d Schur' % len(names)])


def misc_strategy(item):
    return st.fixed_dictionaries({'mat': mat_st(REAL + CPLX), 'cls': st.sampled_from(
        ['ScipyDirect', 'ScipySuperLU', 'ScipyUmfpack', 'MUMPSSolver', 'none']),
        'presolve': st.booleans(), 'order': st.permutations(
            ['ls.petsc', 'ls.scipy_superlu', 'ls.scipy_umfpack', 'ls.mumps']),
        'as_dict': st.booleans()})


def run_misc(case):
    from sfepy.solvers.solvers import use_first_available
    mtx = matrix(case['mat'])
    b = rhs_of(mtx, 3)
    kw = {}
    if case['cls'] != 'none':
        kw = dict(solver_class=getattr(ls, case['cls']),
                  solver_conf={'use_presolve': case['presolve']})
    x = ls.solve(mtx, b, **kw)
    verify('solve()', mtx, mtx.toarray(), b, x)
    # The automatic selection leaves the given options alone and can be repeated.
    from sfepy.solvers.auto_fallback import AutoDirect
    conf = dict(name='ls', kind='ls.auto_direct', use_presolve=case['presolve'])
    given = conf if case['as_dict'] else Struct(**conf)
    for _ in range(2):
        s = Solver.any_from_conf(given) if not case['as_dict'] else AutoDirect(given)
        verify('auto_direct', mtx, mtx.toarray(), b, s(b, mtx=mtx))
    left = given if case['as_dict'] else given.to_dict()
    check({k: v for k, v in left.items()} == conf, 'options changed to %s', left)
    # The first available solver of a list is used.
    lst = [(k, Struct(name='x', kind=k, use_presolve=case['presolve'])) for k in case['order']]
    s, _ = captured(lambda: use_first_available(lst))
    want = [k for k in case['order'] if k != 'ls.petsc'][0]
    check(s.conf.kind == want, 'first available: %s instead of %s', s.conf.kind, want)
    verify('first available', mtx, mtx.toarray(), b, s(b, mtx=mtx))
    return dict(nontrivial=mtx.shape[0] > 1, classes=[case['cls'], case['mat']['cls']])


# ---------------------------------------------------------------- matrices changed in place

def run_place(case):
    """A diagonal matrix with permuted columns changed in place."""
    rng = np.random.default_rng(case['seed'])
    n = case['n'] if not case['big'] else int(rng.integers(100001, 160000))
    kind = case['kind']
    if case['big'] and kind == 'ls.auto_direct':
        # MUMPS takes minutes for large permuted diagonals.
        kind = 'ls.scipy_direct'
    conf = dict(name='ls', kind=kind, use_presolve=case['presolve'])
    d = rng.uniform(1, 2, n)
    if case['equal']:
        d[:] = 1.5
    mtx = sps.csr_array((d, (np.arange(n), rng.permutation(n))), shape=(n, n))
    solver = Solver.any_from_conf(Struct(**conf), mtx=mtx)

    def call(what):
        b = rng.normal(size=n)
        x = np.asarray(solver(b, mtx=mtx))
        ref = np.empty(n)
        ref[mtx.indices] = b / mtx.data
        close(x, ref, 1e-12, 1e-13, what, key='place')
    call('first')
    for op in case['ops']:
        if op == 'value':
            mtx.data[rng.integers(0, n)] *= 1.7
        elif op == 'last':
            mtx.data[-1] *= 1.3
        elif op == 'swap':
            i, j = rng.integers(0, n, 2)
            mtx.indices[[i, j]] = mtx.indices[[j, i]]
        elif op == 'perm':
            mtx.indices[:] = rng.permutation(n)
        call('after ' + op)
    return dict(nontrivial=bool(case['ops']) and n > 1,
                classes=['big:%s' % case['big']] + sorted(set(case['ops'])))


@st.composite
def s_place(draw, item=None):
    return dict(n=draw(st.integers(2, 40)), big=draw(st.integers(0, 3)) == 0,
                kind=draw(st.sampled_from(['ls.scipy_direct', 'ls.auto_direct', 'ls.scipy_superlu'])),
                presolve=draw(st.booleans()), equal=draw(st.booleans()),
                ops=draw(st.lists(st.sampled_from(['value', 'last', 'swap', 'perm', 'same']),
                                  max_size=4)),
                seed=draw(st.integers(0, 10 ** 6)))


SUBS = [
    Sub('direct', seq_strategy, run_direct, n=60, items=list(DIRECT)),
    Sub('iterative', it_strategy, run_iter, n=12, items=ITER),
    Sub('schur', schur_strategy, run_schur, n=40),
    Sub('misc', misc_strategy, run_misc, n=40),
    Sub('place', s_place, run_place, n=60),
]
