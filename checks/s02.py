"""S02: nonlinear and optimization solvers."""
import itertools
import os
import warnings

import numpy as np
import scipy.sparse as sp
import hypothesis.strategies as st

from harness import Sub, Skip, check, close

from sfepy.base.base import IndexedStruct
from sfepy.base.log import read_log
from sfepy.solvers.ls import ScipyDirect, ScipyIterative, MUMPSSolver
from sfepy.solvers.nls import Newton, ScipyRoot, apply_line_search_ainc
from sfepy.solvers.optimize import FMinSteepestDescent, ScipyFMinSolver
from sfepy.solvers.semismooth_newton import SemismoothNewton

PROP = 'S02'
RULE = ('Cases: random smooth system (linear, cubic, quartic gradient, restricted domain of '
        'definition) x random start x random options. Oracle: the recorded evaluations satisfy '
        'the documented algorithm step by step, the status agrees with an independent evaluation '
        'in the returned point, closed-form roots and minima. Non-trivial: at least one '
        'iteration.')
ASSUMPTIONS = ['regular tangent matrices', 'finite values']

warnings.simplefilter('ignore')


def system(case):
    """f, grad f, root."""
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    A = rs.uniform(-1, 1, (n, n))
    A = A @ A.T / n + (0.3 * np.eye(n) if case['sym'] else np.eye(n) + 0.5 * rs.uniform(-1, 1, (n, n)))
    c = 0.0 if case['fun'] == 'linear' else case['c']
    xs = rs.uniform(-1, 1, n)
    kind = case['fun']
    if kind in ('linear', 'cubic'):
        phi = [lambda x: c * x ** 3, lambda x: 3 * c * x ** 2]
    elif kind == 'atan':
        # Newton steps overshoot.
        phi = [lambda x: 5 * c * np.arctan(6 * x), lambda x: 30 * c / (1 + 36 * x ** 2)]
    else:
        phi = [lambda x: c * (np.exp(x) - 1), lambda x: c * np.exp(x)]
    b = A @ xs + phi[0](xs)

    def f(x):
        return A @ x + phi[0](x) - b

    def g(x):
        return sp.csr_array(A + np.diag(phi[1](x)))
    x0 = xs + case['dist'] * rs.uniform(-1, 1, n)
    return f, g, xs, x0


class Rec:
    """Recorded evaluations."""

    def __init__(self, f, g, limit=None):
        self.f, self.g, self.limit, self.events = f, g, limit, []

    def fun(self, x):
        if self.limit is not None and np.abs(x).max() > self.limit:
            self.events.append(('f', x.copy(), None))
            raise ValueError('outside the domain')
        r = self.f(x)
        self.events.append(('f', x.copy(), r.copy()))
        return r

    def grad(self, x):
        self.events.append(('g', x.copy() if not isinstance(x, str) else x, None))
        return self.g(x if not isinstance(x, str) else np.zeros(self.n))


class Lin:
    """Linear solver counting iterations."""

    def __init__(self, kind):
        self.s = {0: lambda: ScipyDirect({}), 1: lambda: MUMPSSolver({}),
                  2: lambda: ScipyDirect({'method': 'superlu'})}[kind]()
        self.calls = []
        self.conf = self.s.conf
        self.mtx = None

    def get_tolerance(self):
        return self.s.get_tolerance()

    def __call__(self, rhs, x0=None, eps_a=None, eps_r=None, mtx=None, status=None, **kw):
        new = mtx is not None
        if new:
            self.mtx = mtx
        out = self.s(rhs, x0=x0, eps_a=eps_a, eps_r=eps_r, mtx=self.mtx, status=status, **kw)
        self.calls.append((new, rhs.copy(), out.copy(), self.mtx))
        if status is not None:
            status['n_iter'] = 3
        return out


def options(case):
    o = dict(i_max=case['i_max'], eps_a=10.0 ** -case['ea'], eps_r=10.0 ** -case['er'],
             eps_mode=['and', 'or'][case['mode']], ls_on=case['ls_on'], ls_red=case['ls_red'],
             ls_red_warp=case['ls_warp'], ls_min=case['ls_min'], step_red=case['step'],
             is_linear=bool(case['lin']) and case['fun'] == 'linear',
             ls_mode=['residual', 'error'][case['ls_mode']],
             give_up_warp=bool(case['give_up']), lin_red=[1.0, None][case['seed'] % 2])
    return o


def converged(o, it, err, err0):
    a = err <= o['eps_a']
    if it == 0:
        return a
    r = (0.0 if abs(err0) < np.finfo(float).eps else err / err0) <= o['eps_r']
    return (a and r) if o['eps_mode'] == 'and' else (a or r)


def run_newton(case):
    f, g, xs, x0 = system(case)
    n = len(xs)
    limit = None
    if case['limit']:
        limit = max(np.abs(xs).max(), np.abs(x0).max()) * case['limit']
    rec = Rec(f, g, limit)
    rec.n = n
    lin = Lin(case['ls'])
    o = options(case)
    hooks, jacs = [], []
    kw = {}
    rs = np.random.RandomState(case['seed'] + 7)
    R, C = np.eye(n), np.eye(n)
    if case['scale']:
        R, C = np.diag(rs.uniform(0.5, 2, n)), np.diag(rs.uniform(0.5, 2, n))
        mem = {}

        def scale(mtx, rhs, x, context):
            if mtx is not None:
                mem['m'] = sp.csr_array(R @ mtx @ C)
            return mem['m'], R @ rhs, np.linalg.solve(C, x)
        o.update(scale_system_fun=scale, scale_solution_fun=lambda x, context: C @ x,
                 scaled_error=case['scale'] == 2)
    if case['jac'] > 1 and not o['is_linear']:
        def new_jacobian(it, it_jac, r1, r0, x1, x0, context=None):
            jacs.append((it, it_jac, r1.copy(), np.copy(r0), x1.copy(), np.copy(x0), context))
            return it % case['jac'] == 0
        o['is_new_jacobian_fun'] = new_jacobian
    if case['ainc']:
        o.update(line_search_fun=apply_line_search_ainc)
    log = None
    if case['log']:
        log = os.path.join(case_dir(), 'newton.txt')
        o['log'] = {'text': log, 'plot': None}
    nls = Newton(o, fun=rec.fun, fun_grad=rec.grad, lin_solver=lin, context='ctx',
                 iter_hook=lambda *a: hooks.append((a[0], a[2].copy()) + a[3:]), **kw)
    status = IndexedStruct()
    x00 = x0.copy()
    raised = False
    try:
        x = nls(x0, status=status)
    except ValueError:
        raised = True
    if nls.log is not None:
        nls.log(finished=True)
    check(np.array_equal(x0, x00), 'initial guess modified')
    # Walk through the events.
    ev = list(rec.events)
    it, ls_it = 0, 0
    J, itj = None, 0
    xk, rk = None, None
    xp = rp = None
    dx = None
    err0 = errp = None
    cond = None
    errs = []
    used = 0
    jk = 0
    njac = 0
    while True:
        check(len(hooks) > it and hooks[it][0] == 'ctx' and hooks[it][2] == it,
              'iteration hook not called')
        # Residual evaluations of the iteration.
        ls, failed_all = 1.0, False
        step = dx
        if it and case['ainc']:
            q = rp @ dx
            if q >= 0:
                G = o['ls_red'] * np.sqrt(q)
                step = dx * ((-1 + np.sqrt(1 + 2 * G)) / G if G > 0 else 0.0)
        fac = 1.0
        while True:
            check(used < len(ev) and ev[used][0] == 'f', 'residual not evaluated')
            _, xe, re = ev[used]
            used += 1
            want = x00 if it == 0 else xp - fac * step
            close(xe, want, 1e-9, 1e-12 + 1e-10 * np.abs(want).max(), 'point of the residual '
                  'evaluation, iteration %d' % it, key='step')
            if re is None:
                if it == 0 or fac < o['ls_min']:
                    check(raised and used == len(ev), 'failed residual not raised')
                    return {'nontrivial': it > 0, 'classes': ['raised']}
                if o['give_up_warp']:
                    failed_all = True
                    break
                fac = fac * o['ls_red_warp']
                continue
            err = np.linalg.norm(re)
            errs.append((err, it))
            if it == 0:
                break
            if o['ls_mode'] == 'residual':
                good, near = err < errp * o['ls_on'], False
            else:
                d2 = np.linalg.norm(C @ np.linalg.solve(Jm, R @ re))
                d1 = np.linalg.norm(step)
                good, near = d2 < d1 * o['ls_on'], abs(d2 - d1 * o['ls_on']) < 1e-8 * d1
            if near:
                raise Skip('tie of line search')
            if good or fac < o['ls_min']:
                break
            fac = fac * o['ls_red']
            ls_it += 1
        if failed_all:
            check(not raised and status.condition == 2, 'give up not reported')
            check(used == len(ev), 'evaluations after giving up')
            # The last valid state is returned and described.
            close(x, xp, 0, 0, 'state after giving up', key='give-up')
            check(status.err == errp and status.n_iter == it, 'status after giving up: %s',
                  status, key='give-up')
            return {'nontrivial': True, 'classes': ['gave-up']}
        xk, rk = xe, re
        if it == 0:
            err0 = err
        check(hooks[it][1].shape == xk.shape, 'hook state')
        close(hooks[it][1], x00 if it == 0 else xp, 0, 0, 'state of hook')
        done = converged(o, it, err, err0)
        if done or it >= o['i_max']:
            cond = 0 if done else 1
            break
        # Tangent matrix.
        need = True
        if case['jac'] > 1 and not o['is_linear']:
            check(len(jacs) > njac, 'is_new_jacobian_fun() not called')
            a = jacs[njac]
            njac += 1
            check(a[0] == it and a[1] == itj and a[6] == 'ctx', 'arguments of is_new_jacobian_fun(): '
                  '%s', a[:2], key='new-jacobian')
            close(a[2], rk, 0, 0, 'residual in is_new_jacobian_fun()')
            close(a[4], xk, 0, 0, 'state in is_new_jacobian_fun()')
            if it:
                close(a[3], rp, 0, 0, 'last residual in is_new_jacobian_fun()')
                close(a[5], xp, 0, 0, 'last state in is_new_jacobian_fun()')
            need = it % case['jac'] == 0 or J is None
        if need:
            check(used < len(ev) and ev[used][0] == 'g', 'tangent matrix not evaluated')
            xg = ev[used][1]
            used += 1
            if o['is_linear']:
                check(isinstance(xg, str) and xg == 'linear', 'not linear')
                J = g(np.zeros(n)).toarray()
            else:
                close(xg, xk, 0, 0, 'point of the tangent matrix', key='tangent')
                J = g(xk).toarray()
            itj = it
        Jm = R @ J @ C
        if np.linalg.cond(J) > 1e8:
            raise Skip('singular')
        dx = o['step_red'] * np.linalg.solve(J, rk)
        it += 1
        errp, xp, rp = err, xk, rk
    check(not raised, 'raised')
    check(used == len(ev), '%d extra evaluations', len(ev) - used)
    close(x, xk, 0, 0, 'returned state is not the last one', key='returned')
    s = status
    check(s.condition == cond, 'condition %s, %s expected', s.condition, cond, key='condition')
    check(s.n_iter == it, 'number of iterations %s, %s expected', s.n_iter, it, key='n_iter')
    check(s.err0 == err0 and s.err == err, 'errors %s %s, %s %s expected', s.err0, s.err, err0, err,
          key='err')
    check(s.ls_n_iter == 3 * it, 'linear solver iterations %s, %s expected', s.ls_n_iter, 3 * it,
          key='ls_n_iter')
    check(sorted(s.time_stats) == ['matrix', 'residual', 'solve'] and s.time >= 0, 'times')
    check(sum(c[0] for c in lin.calls) == it, 'linear solver calls')
    close(f(x), rk, 1e-12, 1e-12, 'residual in the returned state')
    if case['fun'] == 'linear' and case['step'] == 1 and not case['ainc'] and limit is None \
            and case['i_max'] > 0 and o['eps_a'] >= 1e-8:
        if o['eps_r'] * err0 > 1e-9:
            check(cond == 0 and it <= 1, 'linear system not solved in one iteration')
    if cond == 0 and o['eps_mode'] == 'and' and case['fun'] in ('linear', 'cubic', 'exp') \
            and case['sym']:
        # Strongly monotone functions.
        lim = err / 0.3
        close(x, xs, 0, 1.0001 * lim + 1e-10, 'root', key='root')
    if log:
        data = read_log(log)[0]
        flat = sorted(data)
        got = np.asarray(data[flat[0]][1], dtype=float)
        close(got, [e for e, _ in errs], 1e-8, 1e-300, 'logged residuals', key='log')
        close(np.asarray(data[flat[1]][1]), [i for _, i in errs], 0, 0, 'logged iterations', key='log')
    return {'nontrivial': it > 0, 'classes': [case['fun'], 'cond%d' % cond, o['eps_mode']] +
            (['line-search'] if ls_it else []) + (['warp'] if any(
                e[0] == 'f' and e[2] is None for e in ev) else []) +
            [k for k in ('scale', 'ainc', 'log') if case[k]] +
            (['modified'] if case['jac'] > 1 else []) + [o['ls_mode']]}


PATH = [None]


def case_dir():
    return PATH[0]


def with_dir(run):
    import m04

    def go(case):
        with m04.Scratch() as path:
            PATH[0] = path
            return run(case)
    return go


def newton_case(item=None):
    @st.composite
    def mk(draw):
        ainc = draw(st.sampled_from([0, 0, 0, 1]))
        scale = draw(st.sampled_from([0, 0, 1, 2]))
        return dict(
            seed=draw(st.integers(0, 10 ** 6)), n=draw(st.integers(1, 5)),
            sym=draw(st.integers(0, 1)), fun=draw(st.sampled_from(['linear', 'cubic', 'atan', 'exp'])),
            c=draw(st.sampled_from([0.5, 1.0, 4.0])), dist=draw(st.sampled_from([0, 0.1, 1, 5])),
            i_max=draw(st.sampled_from([0, 1, 2, 5, 15, 30])), ea=draw(st.integers(1, 11)),
            er=draw(st.integers(0, 9)), mode=draw(st.integers(0, 1)),
            ls_on=draw(st.sampled_from([0.99999, 0.5, 0.1, 2.0, 1e30])),
            ls_red=draw(st.sampled_from([0.1, 0.5, 0.7])), ls_warp=draw(st.sampled_from([0.001, 0.3])),
            ls_min=draw(st.sampled_from([1e-5, 0.1])), step=draw(st.sampled_from([1.0, 1.0, 0.6])),
            lin=draw(st.integers(0, 1)), ls_mode=draw(st.integers(0, 1)),
            give_up=draw(st.integers(0, 1)), scale=scale, jac=draw(st.sampled_from([1, 1, 2, 3])),
            ainc=ainc, limit=draw(st.sampled_from([0, 0, 1.05, 2.0])), ls=draw(st.integers(0, 2)),
            log=draw(st.sampled_from([0, 0, 0, 1])))
    return mk()


# --- other root finders -----------------------------------------------------------------------

def run_root(case):
    f, g, xs, x0 = system(dict(case, sym=1, c=0.5))
    s = IndexedStruct()
    dense = lambda x: g(x).toarray()
    calls = []

    def fun(x):
        calls.append(1)
        return f(x)
    solver = ScipyRoot(dict(method=case['method'], use_jacobian=bool(case['jac']),
                            tol=10.0 ** -case['tol'], options=case['opts'] or None),
                       fun=fun, fun_grad=dense, status=s)
    try:
        x = solver(x0.copy())
    except (OverflowError, ValueError) as e:
        if isinstance(e, ValueError) and 'infs or NaNs' not in str(e):
            raise
        raise Skip('overflow in scipy')
    if not np.isfinite(x).all() or np.abs(x).max() > 1e5:
        raise Skip('diverged')
    err = np.linalg.norm(f(x))
    close(s.err, err, 1e-10, 1e-12, 'reported residual', key='err')
    check(s.n_fev > 0 and s.time >= 0, 'statistics')
    if case['method'] in ('hybr', 'lm'):
        ok = s.condition in (1, 2, 3, 4)
        check(s.n_fev <= len(calls) + 1, 'number of evaluations')
        if ok and not case['opts']:
            close(x, xs, 0, 1e-3, 'root', key='root')
    elif case['method'] == 'df-sane':
        # fatol on the norm of residuals.
        ok = s.condition in (0, 1)
    else:
        ok = s.condition == 1
        if case['opts']:
            check(s.n_iter <= case['opts']['maxiter'], 'iteration limit')
    return {'nontrivial': case['dist'] > 0, 'classes': [case['method'], 'ok' if ok else 'not']}


def root_case(item):
    return st.fixed_dictionaries(dict(
        method=st.just(item), seed=st.integers(0, 10 ** 6), n=st.integers(1, 4),
        fun=st.sampled_from(['linear', 'cubic', 'exp']), dist=st.sampled_from([0.1, 0.5]),
        jac=st.integers(0, 1), tol=st.integers(3, 9),
        opts=st.just({}) if item in ('hybr', 'lm', 'df-sane') else
        st.sampled_from([{}, {'maxiter': 3}, {'maxiter': 50}])))


# --- semi-smooth Newton -----------------------------------------------------------------------

def run_semismooth(case):
    """K u + C^T l = f, l >= 0, d - C u >= 0, l (d - C u) = 0."""
    rs = np.random.RandomState(case['seed'])
    m = case['m']
    n = m + case['extra']
    K = rs.uniform(-1, 1, (n, n))
    K = K @ K.T + 0.5 * np.eye(n)
    C = rs.uniform(-1, 1, (m, n))
    if np.linalg.cond(C) > 20:
        raise Skip('dependent constraints')
    d = rs.uniform(0, 1, m)
    load = 3 * rs.uniform(-1, 1, n)
    sol = None
    for act in itertools.product([0, 1], repeat=m):
        a = [i for i in range(m) if act[i]]
        k = len(a)
        M = np.block([[K, C[a].T], [C[a], np.zeros((k, k))]])
        y = np.linalg.solve(M, np.r_[load, d[a]])
        u, l = y[:n], np.zeros(m)
        l[a] = y[n:]
        if (l >= -1e-12).all() and (d - C @ u >= -1e-12).all():
            sol, actives = np.r_[u, l], a
            break
    check(sol is not None, 'no reference solution')
    margin = min(np.maximum(sol[n:], d - C @ sol[:n]))
    N = n + m
    Ms = sp.csr_array(np.hstack([K, C.T]))
    Ma = sp.csr_array(np.hstack([np.zeros((m, n)), np.eye(m)]))
    Mb = sp.csr_array(np.hstack([-C, np.zeros((m, m))]))
    log = []

    def fs(x):
        log.append(x.copy())
        return Ms @ x - load
    conf = dict(semismooth=bool(case['semi']), i_max=case['i_max'], eps_a=1e-9, eps_r=1.0,
                ls_on=case['ls_on'], ls_red={'regular': 0.1, 'steepest_descent': 0.01})
    s = IndexedStruct()
    solver = SemismoothNewton(conf, fun_smooth=fs, fun_smooth_grad=lambda x: Ms,
                              fun_a=lambda x: x[n:].copy(), fun_a_grad=lambda x: Ma,
                              fun_b=lambda x: d - C @ x[:n], fun_b_grad=lambda x: Mb,
                              lin_solver=ScipyDirect({}), status=s)
    near = case['dist'] < 0.01
    x0 = sol + case['dist'] * rs.uniform(-1, 1, N)
    x00 = x0.copy()
    x = solver(x0)
    check(np.array_equal(x0, x00), 'initial guess modified')

    def Phi(x):
        a, b = x[n:], d - C @ x[:n]
        p = np.sqrt(a ** 2 + b ** 2) - a - b if case['semi'] else np.minimum(a, b)
        return np.r_[Ms @ x - load, p]
    err = np.linalg.norm(Phi(x))
    close(s.err, err, 1e-8, 1e-13, 'reported residual', key='err')
    close(s.err0, np.linalg.norm(Phi(x00)), 1e-10, 1e-13, 'reported initial residual', key='err0')
    check(s.condition in (0, 1), 'condition')
    good = err <= 1e-9 and err <= s.err0
    if s.err0 > 1e-9 and abs(err - 1e-9) > 1e-12 and case['i_max'] > 0:
        check((s.condition == 0) == bool(good), 'condition %s with residual %s', s.condition, err,
              key='condition')
    if s.condition == 0:
        close(x, sol, 0, 1e-6, 'solution', key='solution')
        check((x[n:] > -1e-8).all() and (d - C @ x[:n] > -1e-8).all(), 'constraints')
    if near and margin > 0.1 and case['i_max'] >= 10:
        check(s.condition == 0, 'not converged from a nearby start', key='local')
    return {'nontrivial': s.err0 > 1e-9, 'classes': ['cond%d' % s.condition, 'active%d' % len(actives),
                                                   'near' if near else 'far']}


def semismooth_case(item=None):
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 10 ** 6), m=st.integers(1, 4), extra=st.integers(0, 3),
        semi=st.integers(0, 1), i_max=st.sampled_from([1, 3, 10, 30]),
        ls_on=st.sampled_from([0.99999, 2.0]), dist=st.sampled_from([0.001, 0.1, 1.0])))


# --- optimization -----------------------------------------------------------------------------

def objective(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    A = rs.uniform(-1, 1, (n, n))
    A = A @ A.T / n + 0.5 * np.eye(n)
    xs = rs.uniform(-1, 1, n)
    q = case['q']
    b = A @ xs + q * xs ** 3
    c0 = case['c0']

    def of(x, *a):
        return 0.5 * x @ A @ x + 0.25 * q * np.sum(x ** 4) - b @ x - m0 + c0

    def ofg(x, *a):
        return A @ x + q * x ** 3 - b
    m0 = 0.5 * xs @ A @ xs + 0.25 * q * np.sum(xs ** 4) - b @ xs
    return of, ofg, xs, xs + case['dist'] * rs.uniform(-1, 1, n)


def run_sd(case):
    of, ofg, xs, x0 = objective(case)
    full = case['method'] == 'full'
    ev = []
    lim = None
    if case['limit'] and not full:
        lim = max(np.abs(xs).max(), np.abs(x0).max()) * case['limit']

    def f(x, *a):
        check(tuple(a) == (1, 'b'), 'arguments')
        if lim is not None and np.abs(x).max() > lim:
            ev.append(('f', x.copy(), None))
            return None
        ev.append(('f', x.copy(), of(x)))
        return ev[-1][2]

    def g(x, *a):
        ev.append(('g', x.copy(), ofg(x)))
        return ev[-1][2].copy()
    norm = [np.inf, 2][case['norm']]
    o = dict(i_max=case['i_max'], eps_rd=10.0 ** -case['erd'], eps_of=10.0 ** -case['eof'],
             eps_ofg=10.0 ** -case['eofg'], ls=bool(case['ls']), ls_method=case['method'],
             ls_on=case['ls_on'], ls0=case['ls0'], ls_red=case['ls_red'], ls_red_warp=0.1,
             ls_min=1e-5, norm=norm)
    s = IndexedStruct()
    opt = FMinSteepestDescent(o, obj_fun=f, obj_fun_grad=g, status=s, obj_args=(1, 'b'))
    raised = False
    x00 = x0.copy()
    try:
        with np.errstate(all='ignore'):
            x = opt(x0)
    except RuntimeError:
        raised = True
    check(np.array_equal(x0, x00), 'initial guess modified')
    if raised:
        check(ev[-1][2] is None, 'raised')
        return {'nontrivial': True, 'classes': ['raised']}
    if not np.isfinite(x).all() or np.abs(x).max() > 1e20:
        raise Skip('diverged')
    nf, ng = sum(e[0] == 'f' for e in ev), sum(e[0] == 'g' for e in ev)
    check(s.nc_of == nf and s.nc_ofg == ng, 'numbers of evaluations %s, %s', (s.nc_of, s.nc_ofg),
          (nf, ng), key='counts')
    close(s.of, of(x), 1e-12, 1e-12, 'reported objective', key='of')
    close(s.of0, of(x00), 1e-12, 1e-12, 'reported initial objective', key='of0')
    gn = np.linalg.norm(ofg(x), norm)
    if not full:
        # Replay.
        xk, fk = x00, of(x00)
        fp = fk
        used = 1
        it = 0
        while True:
            used += 1       # gradient
            gk = ofg(xk)
            n_ = np.linalg.norm(gk, norm)
            ret = -1
            if abs(fk) < o['eps_of']:
                ret = 0
            elif n_ and n_ < o['eps_ofg']:
                ret = 2
            elif it > 0 and abs(fp - fk) < o['eps_rd'] * abs(fp):
                ret = 3
            elif it >= o['i_max']:
                ret = 1
            if ret >= 0:
                break
            fp = fk
            al = o['ls0']
            while True:
                _, xe, fe = ev[used]
                used += 1
                close(xe, xk - al * gk, 1e-9, 1e-11, 'trial point', key='trial')
                if fe is None:
                    al *= 0.1
                elif o['ls']:
                    if fe < fk * o['ls_on']:
                        break
                    al *= o['ls_red']
                else:
                    break
                if al < 1e-5:
                    break
            xk = xk - al * gk
            fk = of(xk)
            check(ev[used][0] == 'f', 'objective not evaluated in the new point')
            close(ev[used][1], xk, 1e-9, 1e-11, 'new point', key='new')
            xk = ev[used][1]
            used += 1
            it += 1
        check(used == len(ev), 'extra evaluations')
        close(x, xk, 0, 0, 'returned point')
        check(s.it == it, 'iterations')
        check(s.status == ret, 'status %s, %s expected', s.status, ret, key='status')
    else:
        check(s.it <= o['i_max'] and s.status in (0, 1, 2, 3), 'status %s', s.status, key='status')
        if s.status == 0:
            check(abs(of(x)) < o['eps_of'], 'status 0', key='status')
        elif s.status == 2:
            check(gn < o['eps_ofg'], 'status 2', key='status')
        elif s.status == 1:
            check(s.it == o['i_max'], 'status 1', key='status')
        check(not o['ls'] or of(x) <= of(x00) + 1e-12, 'objective increased', key='increased')
    return {'nontrivial': s.it > 0, 'classes': ['status%d' % s.status, case['method']]}


def sd_case(item=None):
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 10 ** 6), n=st.integers(1, 4), q=st.sampled_from([0.0, 0.5]),
        c0=st.sampled_from([0.0, 1.0]), dist=st.sampled_from([0.1, 1.0]),
        limit=st.sampled_from([0, 0, 1.1]), norm=st.integers(0, 1),
        method=st.sampled_from(['backtracking', 'backtracking', 'full']),
        i_max=st.sampled_from([0, 1, 5, 40]), erd=st.integers(2, 8), eof=st.integers(3, 8),
        eofg=st.integers(2, 8), ls=st.integers(0, 1), ls_on=st.sampled_from([0.99999, 0.9]),
        ls0=st.sampled_from([1.0, 0.3]), ls_red=st.sampled_from([0.5, 0.3])))


FMIN = ['fmin', 'fmin_bfgs', 'fmin_cg', 'fmin_cobyla', 'fmin_l_bfgs_b', 'fmin_ncg', 'fmin_powell',
        'fmin_slsqp', 'fmin_tnc']
TOL = {'fmin': 1e-3, 'fmin_cobyla': 1e-2, 'fmin_powell': 1e-2, 'fmin_tnc': 1e-2}


def run_fmin(case):
    import scipy.optimize as so
    of, ofg, xs, x0 = objective(case)
    meth = case['method']
    calls = []

    def f(x, *a):
        check(tuple(a) == (1, 'b'), 'arguments')
        calls.append(x.copy())
        return of(np.asarray(x))

    def g(x, *a):
        return ofg(np.asarray(x))
    o = dict(method=meth, i_max=case['i_max'])
    extra = {}
    if meth == 'fmin_cobyla':
        extra['cons'] = []
    s = IndexedStruct()
    opt = ScipyFMinSolver(dict(o, **extra), obj_fun=f, obj_fun_grad=g, status=s, obj_args=(1, 'b'))
    out = opt(x0.copy())
    x = out[0] if isinstance(out, tuple) else out
    check(s.time_stats >= 0, 'times')
    x = np.asarray(x)
    # The same call of scipy.
    kw = {ScipyFMinSolver._i_max_name[meth]: case['i_max']}
    if meth == 'fmin_slsqp':
        kw['iprint'] = 0
    if meth not in ('fmin', 'fmin_powell', 'fmin_cobyla'):
        kw['fprime'] = ofg
    if meth == 'fmin_cobyla':
        kw['cons'] = []
    if meth not in ('fmin_l_bfgs_b', 'fmin_slsqp', 'fmin_tnc', 'fmin_cobyla'):
        kw['disp'] = 0
    ref = getattr(so, meth)(of, x0.copy(), **kw)
    ref = np.asarray(ref[0] if isinstance(ref, tuple) else ref)
    close(x, ref, 1e-9, 1e-10, 'result of scipy', key='scipy')
    if case['i_max'] >= 500:
        close(x, xs, 0, TOL.get(meth, 1e-3), 'minimum', key='minimum')
    return {'nontrivial': len(calls) > 1, 'classes': [meth]}


def fmin_case(item):
    return st.fixed_dictionaries(dict(
        method=st.just(item), seed=st.integers(0, 10 ** 6), n=st.integers(1, 3),
        q=st.sampled_from([0.0, 0.5]), c0=st.just(0.0), dist=st.sampled_from([0.1, 1.0]),
        i_max=st.sampled_from([3, 20, 1000])))


SUBS = [
    Sub('newton', newton_case, with_dir(run_newton), 1500, 40000),
    Sub('root', root_case, run_root, 12, 300, items=ScipyRoot.methods),
    Sub('semismooth', semismooth_case, run_semismooth, 200, 6000),
    Sub('steepest_descent', sd_case, run_sd, 200, 6000),
    Sub('fmin', fmin_case, run_fmin, 12, 300, items=FMIN),
]
