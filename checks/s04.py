"""S04: time integrators against reference recurrences."""
import numpy as np
import scipy.linalg as sla
import scipy.sparse as sps
import hypothesis.strategies as st

import gen
import pb
from harness import Sub, Skip, check, close

from sfepy.base.base import Struct, IndexedStruct
import sfepy.discrete  # noqa
from sfepy.solvers import Solver

PROP = 'S04'
RULE = ('Cases: (a) random semi-discrete systems M a + C v + K u + g(u) = p(t), optionally with '
        'an algebraic variable, x integrator and parameters x time grids x step controllers x '
        'is_linear / presolve options; (b) energy and order of convergence runs; (c) elastodynamic '
        'and heat finite element problems on generated meshes with time dependent loads and '
        'Dirichlet data.  Oracle: the documented recurrences in dense algebra, a model of the '
        'controllers, matrix exponentials.  Non-trivial: at least two steps.')
ASSUMPTIONS = ['velocity Verlet without damping', 'generalized alpha with constant loads',
               'at least two time steps']


# ------------------------------------------------------------ reference integrators

class Ref:
    """Reference single steps.  sys.res(u, v, a, t), sys.jac(u, ck, cc, cm) dense."""

    def __init__(self, sys):
        self.s = sys

    def solve(self, fun, jac, x):
        for _ in range(60):
            r = fun(x)
            dx = np.linalg.solve(jac(x), -r)
            x = x + dx
            if np.abs(dx).max() <= 1e-14 * (1 + np.abs(x).max()):
                break
        return x

    def a0(self, u, v, t):
        s = self.s
        z = np.zeros_like(u)
        return np.linalg.solve(s.jac(u, 0, 0, 1), -s.res(u, v, z, t))

    def newmark(self, u, v, a, t, dt, beta, gamma):
        s = self.s
        up = u + dt * v + dt**2 * (0.5 - beta) * a
        vp = v + dt * (1 - gamma) * a
        an = self.solve(
            lambda x: s.res(up + dt**2 * beta * x, vp + dt * gamma * x, x, t + dt),
            lambda x: s.jac(up + dt**2 * beta * x, dt**2 * beta, dt * gamma, 1.0), a)
        return up + dt**2 * beta * an, vp + dt * gamma * an, an

    def alpha(self, u, v, a, t, dt, am, af, beta, gamma):
        s = self.s

        def un(x):
            return u + dt * v + dt**2 * ((0.5 - beta) * a + beta * x)

        def vn(x):
            return v + dt * ((1 - gamma) * a + gamma * x)
        an = self.solve(
            lambda x: s.res((1 - af) * un(x) + af * u, (1 - af) * vn(x) + af * v,
                            (1 - am) * x + am * a, t + dt),
            lambda x: s.jac((1 - af) * un(x) + af * u, (1 - af) * dt**2 * beta,
                            (1 - af) * dt * gamma, 1 - am), a)
        return un(an), vn(an), an

    def bathe(self, u, v, a, t, dt):
        s = self.s
        # Trapezoidal rule with the step dt / 2.
        h = 0.5 * dt

        def v1(x):
            return 2 / h * (x - u) - v

        def a1(x):
            return 2 / h * (v1(x) - v) - a
        uh = self.solve(lambda x: s.res(x, v1(x), a1(x), t + h),
                        lambda x: s.jac(x, 1.0, 2 / h, (2 / h)**2), u)
        vh = v1(uh)
        # Three-point backward Euler.

        def bd(x0, x1, x2):
            return (x0 - 4 * x1 + 3 * x2) / dt
        un = self.solve(lambda x: s.res(x, bd(u, uh, x), bd(v, vh, bd(u, uh, x)), t + dt),
                        lambda x: s.jac(x, 1.0, 3 / dt, (3 / dt)**2), uh)
        vn = bd(u, uh, un)
        return un, vn, bd(v, vh, vn)

    def step(self, name, pars, u, v, a, t, dt):
        if name in ('ts.velocity_verlet', 'ts.central_difference'):
            return self.newmark(u, v, a, t, dt, 0.0, 0.5)
        if name == 'ts.newmark':
            return self.newmark(u, v, a, t, dt, pars['beta'], pars['gamma'])
        if name == 'ts.generalized_alpha':
            return self.alpha(u, v, a, t, dt, *alpha_pars(pars))
        return self.bathe(u, v, a, t, dt)


def alpha_pars(p):
    r = p.get('rho_inf', 0.5)
    am = p.get('alpha_m')
    af = p.get('alpha_f')
    am = (2 * r - 1) / (r + 1) if am is None else am
    af = r / (r + 1) if af is None else af
    beta = p.get('beta')
    gamma = p.get('gamma')
    beta = 0.25 * (1 - am + af)**2 if beta is None else beta
    gamma = 0.5 - am + af if gamma is None else gamma
    return am, af, beta, gamma


class System:
    def __init__(self, case):
        rng = np.random.default_rng(case['seed'])
        n = self.n = case['n']

        def spd(lo, hi):
            q = np.linalg.qr(rng.normal(size=(n, n)))[0]
            a = (q * rng.uniform(lo, hi, n)) @ q.T
            return 0.5 * (a + a.T)
        self.M = np.diag(rng.uniform(0.5, 2, n)) if case['diag'] else spd(0.5, 2)
        self.K = spd(1, 20)
        self.C = {'none': np.zeros((n, n)), 'prop': 0.1 * self.M + 0.02 * self.K,
                  'nons': spd(0, 1) + 0.3 * rng.uniform(-1, 1, (n, n))}[case['damp']]
        if case['kuns']:
            self.K = self.K + rng.uniform(-1, 1, (n, n))
        self.al = rng.uniform(0, 2, n) if case['nonlin'] else np.zeros(n)
        self.nonlin = case['nonlin']
        self.p0 = rng.uniform(-1, 1, n) if case['load'] != 'zero' else np.zeros(n)
        self.p1 = rng.uniform(-1, 1, n) if case['load'] == 'time' else np.zeros(n)
        self.w = rng.uniform(1, 4)
        self.u0 = rng.uniform(-1, 1, n)
        self.v0 = rng.uniform(-1, 1, n)

    def load(self, t):
        return self.p0 + self.p1 * np.sin(self.w * t)

    def g(self, u):
        return self.al * u**3

    def res(self, u, v, a, t):
        return self.M @ a + self.C @ v + self.K @ u + self.g(u) - self.load(t)

    def jac(self, u, ck, cc, cm):
        return cm * self.M + cc * self.C + ck * (self.K + np.diag(3 * self.al * u**2))


def build(sys, case, conf, tsc=None):
    """An sfepy solver of a given system; returns (solver, call)."""
    n = sys.n
    ne = case.get('ne', 0)
    nue = n + ne
    i_u, i_e, i_v, i_a = (slice(0, n), slice(n, nue), slice(nue, nue + n),
                          slice(nue + n, nue + 2 * n))
    cell = {'t': None, 'n_fun': 0, 'n_grad': 0}
    if ne:
        rng = np.random.default_rng(case['seed'] + 5)
        sys.Kee = -(np.eye(ne) * 2 + 0.3 * rng.uniform(-1, 1, (ne, ne)))
        sys.Kue = 0.5 * rng.uniform(-1, 1, (n, ne))
        sys.Keu = 0.5 * rng.uniform(-1, 1, (ne, n))

    def fun(vec):
        u, e, v, a = vec[i_u], vec[i_e], vec[i_v], vec[i_a]
        out = np.zeros_like(vec)
        out[i_u] = sys.K @ u + sys.g(u) - sys.load(cell['t'])
        if ne:
            out[i_u] += sys.Kue @ e
            out[i_e] = sys.Keu @ u + sys.Kee @ e - np.cos(cell['t'])
        out[i_v] = sys.C @ v
        out[i_a] = sys.M @ a
        return out

    def fun_grad(vec):
        cell['n_grad'] += 1
        u = vec[i_u]
        kk = np.zeros((nue, nue))
        kk[i_u, i_u] = sys.K + np.diag(3 * sys.al * u**2)
        if ne:
            kk[i_u, i_e] = sys.Kue
            kk[i_e, i_u] = sys.Keu
            kk[i_e, i_e] = sys.Kee
        return sps.csr_array(sla.block_diag(kk, sys.C, sys.M))
    ls = Solver.any_from_conf(Struct(name='ls', kind=case['ls'], use_presolve=case['presolve']))
    nls = Solver.any_from_conf(Struct(name='nls', kind='nls.newton', i_max=25, eps_a=1e-13,
                                      eps_r=1e-14, eps_mode='or', ls_on=1e100,
                                      is_linear=False), fun=fun, fun_grad=fun_grad,
                               lin_solver=ls)
    names = {'u': 'u', 'du': 'du', 'ddu': 'ddu'}
    indx = {'u': i_u, 'du': i_v, 'ddu': i_a}
    nd = {'u': n, 'du': n, 'ddu': n}
    if ne:
        indx['e'] = i_e
        nd['e'] = ne
        names['extra'] = {'e'}
    d = dict(conf)
    d['var_names'] = names
    kw = {} if tsc is None else {'tsc': tsc}
    solver = Solver.any_from_conf(Struct(**d), nls=nls, context=Struct(), **kw)
    solver.set_dof_info(Struct(indx=indx, n_dof=nd, n_dof_total=nue + 2 * n))
    log = []

    def prestep(ts, vec):
        cell['t'] = ts.time
        return vec

    def poststep(ts, vec):
        log.append((ts.step, ts.time, vec.copy(), ts.dt))
        return vec

    def call(u0, v0, status=None):
        vec = np.zeros(nue + 2 * n)
        vec[i_u] = u0
        vec[i_v] = v0
        if ne:
            vec[i_e] = np.linalg.solve(sys.Kee, np.cos(case['t0']) - sys.Keu @ u0)
        return solver(vec, prestep_fun=prestep, poststep_fun=poststep, status=status)
    return solver, call, log, (i_u, i_e, i_v, i_a), cell


class Condensed:
    """The system with the algebraic variable eliminated."""

    def __init__(self, sys):
        self.s = sys
        self.ki = np.linalg.inv(sys.Kee)

    def e(self, u, t):
        return self.ki @ (np.cos(t) - self.s.Keu @ u)

    def res(self, u, v, a, t):
        return self.s.res(u, v, a, t) + self.s.Kue @ self.e(u, t)

    def jac(self, u, ck, cc, cm):
        return self.s.jac(u, ck, cc, cm) - ck * self.s.Kue @ self.ki @ self.s.Keu


INTEGRATORS = ['ts.velocity_verlet', 'ts.central_difference', 'ts.newmark',
               'ts.generalized_alpha', 'ts.bathe']


def pars_st(name):
    if name == 'ts.newmark':
        return st.sampled_from([{'beta': 0.25, 'gamma': 0.5}, {'beta': 1 / 6, 'gamma': 0.5},
                                {'beta': 0.0, 'gamma': 0.5}, {'beta': 0.3, 'gamma': 0.6}])
    if name == 'ts.generalized_alpha':
        return st.one_of(
            st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0]).map(lambda r: {'rho_inf': r}),
            st.sampled_from([{'alpha_m': 0.0}, {'alpha_f': 0.0}, {'alpha_m': 0.0, 'alpha_f': 0.0},
                             {'alpha_m': 0.1, 'alpha_f': 0.3, 'beta': 0.4, 'gamma': 0.6}]))
    return st.just({})


def sys_st(name, **over):
    d = {'seed': st.integers(0, 10**6), 'n': st.integers(1, 6), 'diag': st.booleans(),
         'damp': st.just('none') if name == 'ts.velocity_verlet' else st.sampled_from(
             ['none', 'prop', 'nons']),
         'nonlin': st.booleans(), 'kuns': st.booleans(),
         'load': st.sampled_from(['zero', 'const'] if name == 'ts.generalized_alpha' else [
             'zero', 'const', 'time']),
         'ls': st.sampled_from(['ls.scipy_superlu', 'ls.scipy_direct', 'ls.mumps']),
         'presolve': st.booleans(), 't0': st.sampled_from([0.0, 1.0, -0.5]),
         'dt': st.sampled_from([0.01, 0.05, 0.1]), 'n_step': st.integers(2, 9),
         'name': st.just(name), 'pars': pars_st(name)}
    d.update(over)
    return st.fixed_dictionaries(d)


def fixed_strategy(name):
    return sys_st(name, lin=st.booleans(), how=st.sampled_from(['n_step', 'dt', 'seq', 'seqvar']),
                  ne=st.sampled_from([0, 0, 1, 2]) if name == 'ts.newmark' else st.just(0),
                  status=st.booleans())


def grid(case):
    n = case['n_step']
    t1 = case['t0'] + case['dt'] * (n - 1)
    return case['t0'], t1, np.linspace(case['t0'], t1, n)


def ts_conf(case, **kw):
    t0, t1, times = grid(case)
    conf = dict(name='ts', kind=case['name'], t0=t0, t1=t1, verbose=False)
    conf.update(case['pars'])
    conf.update(kw)
    return conf


def run_fixed(case):
    sys = System(case)
    t0, t1, times = grid(case)
    conf = ts_conf(case, is_linear=case['lin'] and not case['nonlin'])
    tsc = None
    if case['how'] == 'dt':
        conf.update(dt=case['dt'], n_step=None)
    else:
        conf.update(n_step=case['n_step'])
    if case['how'] in ('seq', 'seqvar'):
        if case['how'] == 'seqvar':
            rng = np.random.default_rng(case['seed'] + 3)
            h = rng.uniform(0.3, 1.7, len(times) - 1)
            times = np.r_[t0, t0 + (t1 - t0) * np.cumsum(h) / h.sum()]
            times[-1] = t1
        tsc = Solver.any_from_conf(Struct(name='c', kind='tsc.time_sequence',
                                          times=list(times[1:])))
    solver, call, log, (iu, ie, iv, ia), cell = build(sys, case, conf, tsc)
    ne = case['ne']
    status = IndexedStruct() if case['status'] else None
    last = call(sys.u0, sys.v0, status)
    what = '%s %s' % (case['name'], case['pars'])
    check([r[0] for r in log] == list(range(len(times))), '%s: steps %s', what,
          [r[0] for r in log])
    close([r[1] for r in log], times, 1e-12, 1e-13, what + ': times')
    rsys = Condensed(sys) if ne else sys
    ref = Ref(rsys)
    u, v = sys.u0, sys.v0
    a = ref.a0(u, v, t0)
    for k, (step, t, vec, dt) in enumerate(log):
        if k:
            u, v, a = ref.step(case['name'], case['pars'], u, v, a, times[k - 1],
                               times[k] - times[k - 1])
        sc = max(1.0, np.abs(u).max(), np.abs(v).max(), np.abs(a).max())
        if sc > 1e6:
            raise Skip('unstable')
        tol = 1e-8 * sc
        close(vec[iu], u, 0, tol, '%s: u in step %d' % (what, k))
        close(vec[iv], v, 0, tol, '%s: du in step %d' % (what, k))
        close(vec[ia], a, 0, tol * 10, '%s: ddu in step %d' % (what, k))
        if ne:
            close(vec[ie], rsys.e(u, times[k]), 0, tol, '%s: algebraic variable, step %d'
                  % (what, k))
    close(last, log[-1][2], 0, 0, what + ': returned vector')
    if status is not None:
        check(status['n_step'] == len(times) and status['time'] >= 0, '%s: status %s', what, status)
    if conf['is_linear'] and tsc is None:
        check(cell['n_grad'] <= 2, '%s: %d tangent matrix evaluations of a linear problem', what,
              cell['n_grad'])
    return dict(nontrivial=len(times) > 2, classes=[case['name'], case['how'], case['load'],
                                                    case['damp'], 'extra' if ne else 'plain',
                                                    'linear' if conf['is_linear'] else 'general'])


# ------------------------------------------------------------ adaptive control

def adapt_strategy(name):
    return sys_st(name, tsc=st.sampled_from(['tsc.ed_basic', 'tsc.ed_pid', 'tsc.ed_linear']),
                  eps=st.sampled_from([1e-1, 1e-2, 1e-3]), guess=st.booleans(),
                  fred=st.sampled_from([1.0, 0.7]), wait=st.integers(0, 3),
                  minf=st.sampled_from([1.0, 1.2, 1.5]), pid=st.sampled_from(
                      [[0.0, 1.0, 0.0], [0.3, 0.6, 0.0], [0.2, 0.5, 0.1]]),
                  fmin=st.sampled_from([0.3, 0.5]), fmax=st.sampled_from([1.5, 2.5]),
                  fs=st.sampled_from([0.8, 0.9]), lin=st.booleans())


def snorm(e, ea, er):
    return np.sqrt(np.mean((e / (er * np.abs(e) + ea))**2))


def run_adapt(case):
    sys = System(case)
    t0, t1, times = grid(case)
    conf = ts_conf(case, is_linear=case['lin'] and not case['nonlin'], n_step=case['n_step'])
    er = (case['eps'], 3 * case['eps'])
    ea = (0.5 * case['eps'], 2 * case['eps'])
    cc = dict(name='c', kind=case['tsc'], eps_r=er, eps_a=ea, fmin=case['fmin'],
              fmax=case['fmax'], fsafety=case['fs'], error_order=2, guess_dt0=case['guess'])
    if case['tsc'] == 'tsc.ed_pid':
        cc.update(zip(('pcoef', 'icoef', 'dcoef'), case['pid']))
    elif case['tsc'] == 'tsc.ed_linear':
        cc.update(fred=case['fred'], inc_wait=case['wait'], min_finc=case['minf'])
    tsc = Solver.any_from_conf(Struct(**cc))
    solver, call, log, (iu, ie, iv, ia), cell = build(sys, case, conf, tsc)
    # The model.
    ref = Ref(sys)
    u, v = sys.u0, sys.v0
    a = ref.a0(u, v, t0)
    hist = [(t0, u, v, a)]
    dt = case['dt']
    if case['guess']:
        d0, d1, d2 = [snorm(x, min(ea), min(er)) for x in (u, v, a)]
        h0 = 1e-6 if d0 < 1e-5 or d1 < 1e-5 else 0.01 * d0 / d1
        m = max(d1, d2)
        h1 = max(1e-6, h0 * 1e-3) if m < 1e-15 else (0.01 / m)**0.5
        dt = min(100 * h0, h1)
    t = t0
    p, i, d = case['pid']
    b1, b2, b3 = -(p + i + d) / 2, (p + 2 * d) / 2, -d / 2
    e1 = e2 = 1.0
    count = 0
    nrej = 0
    for _ in range(400):
        un, vn, an = ref.step(case['name'], case['pars'], u, v, a, t, dt)
        eu = snorm(un - (u + dt * vn), ea[0], er[0])
        ev = snorm(vn - (v + dt * an), ea[1], er[1])
        em = max(eu, ev)
        if abs(em - 1) < 1e-6 or em < 1e-14:
            raise Skip('decision too close')
        ok = em <= 1
        if case['tsc'] == 'tsc.ed_pid':
            new = dt * min(case['fmax'], max(case['fmin'],
                                             case['fs'] * em**b1 * e1**b2 * e2**b3))
            e1, e2 = em, e1
        else:
            fac = case['fs'] / em**0.5
            new = dt * (min(case['fmax'], fac) if ok else max(case['fmin'], fac))
            if case['tsc'] == 'tsc.ed_linear':
                if not ok:
                    count = 0
                    new *= case['fred']
                elif count < case['wait']:
                    count += 1
                    new = dt
                else:
                    if abs(new / dt - case['minf']) < 1e-6:
                        raise Skip('decision too close')
                    if new / dt >= case['minf']:
                        count = 0
                    else:
                        new = dt
        if ok:
            t = t + dt
            u, v, a = un, vn, an
            hist.append((t, u, v, a))
            if abs(t - t1) < 1e-6 * dt:
                raise Skip('decision too close')
            if t >= t1:
                break
        else:
            nrej += 1
        dt = new
    else:
        raise Skip('too many steps')
    call(sys.u0, sys.v0)
    what = '%s %s' % (case['name'], case['tsc'])
    check(len(log) == len(hist), '%s: %d steps instead of %d', what, len(log), len(hist))
    for k, (r, h) in enumerate(zip(log, hist)):
        check(r[0] == k, '%s: step number', what)
        close(r[1], h[0], 1e-7, 1e-9, '%s: time of step %d' % (what, k))
        sc = max(1.0, np.abs(h[3]).max())
        for nm, ii, x in (('u', iu, h[1]), ('du', iv, h[2]), ('ddu', ia, h[3])):
            close(r[2][ii], x, 0, 1e-6 * sc, '%s: %s in step %d' % (what, nm, k))
    return dict(nontrivial=len(hist) > 2, classes=[case['name'], case['tsc'], 'rejections'
                                                   if nrej else 'accepted',
                                                   'guess' if case['guess'] else 'given'])


# ------------------------------------------------------------ energy, order

def energy_strategy(name):
    over = {'damp': st.just('none'), 'nonlin': st.just(False), 'kuns': st.just(False),
            'load': st.just('zero'), 'n_step': st.integers(10, 40), 'lin': st.booleans()}
    if name == 'ts.newmark':
        over['pars'] = st.just({'beta': 0.25, 'gamma': 0.5})
    else:
        over['pars'] = st.just({'rho_inf': 1.0})
    return sys_st(name, **over)


def run_energy(case):
    sys = System(case)
    solver, call, log, (iu, ie, iv, ia), cell = build(
        sys, case, ts_conf(case, n_step=case['n_step'], is_linear=case['lin']))
    call(sys.u0, sys.v0)
    en = [0.5 * r[2][iv] @ sys.M @ r[2][iv] + 0.5 * r[2][iu] @ sys.K @ r[2][iu] for r in log]
    close(en, en[0], 1e-9, 0, '%s: energy' % case['name'])
    return dict(nontrivial=True, classes=[case['name']])


def order_strategy(name):
    over = {'nonlin': st.just(False), 'kuns': st.just(False), 'dt': st.just(0.01),
            'n_step': st.just(11), 'lin': st.booleans()}
    if name == 'ts.newmark':
        over['pars'] = st.sampled_from([{'beta': 0.25, 'gamma': 0.5},
                                        {'beta': 1 / 6, 'gamma': 0.5},
                                        {'beta': 1 / 12, 'gamma': 0.5}])
    elif name == 'ts.generalized_alpha':
        over['pars'] = st.sampled_from([{'rho_inf': r} for r in (0.0, 0.5, 1.0)])
    return sys_st(name, **over)


def run_order(case):
    """The error decreases with the second order of the time step."""
    sys = System(case)
    n = sys.n
    errs = []
    t0 = case['t0']
    tt = 0.4
    # Exact solution: first order system with the load modes added.
    mi = np.linalg.inv(sys.M)
    A = np.zeros((2 * n + 3, 2 * n + 3))
    A[:n, n:2 * n] = np.eye(n)
    A[n:2 * n, :n] = -mi @ sys.K
    A[n:2 * n, n:2 * n] = -mi @ sys.C
    A[n:2 * n, 2 * n] = mi @ sys.p0
    A[n:2 * n, 2 * n + 1] = mi @ sys.p1
    A[2 * n + 1, 2 * n + 2] = sys.w
    A[2 * n + 2, 2 * n + 1] = -sys.w
    y0 = np.r_[sys.u0, sys.v0, 1.0, np.sin(sys.w * t0), np.cos(sys.w * t0)]
    ex = (sla.expm(A * tt) @ y0)[:n]
    for m in (40, 80):
        c = dict(case, n_step=m + 1, dt=tt / m)
        solver, call, log, (iu, ie, iv, ia), cell = build(
            sys, c, ts_conf(c, n_step=m + 1, is_linear=case['lin']))
        vec = call(sys.u0, sys.v0)
        errs.append(np.linalg.norm(vec[iu] - ex))
    sc = np.linalg.norm(sys.u0) + np.linalg.norm(sys.v0)
    check(errs[0] < 0.05 * sc, '%s: error %.2e', case['name'], errs[0])
    if errs[0] > 1e-7 * sc:
        check(errs[0] / errs[1] > 3.0, '%s %s: errors %s - the order is %.2f', case['name'],
              case['pars'], errs, np.log2(errs[0] / errs[1]))
    return dict(nontrivial=True, classes=[case['name'], case['load'], case['damp']])


SUBS = [
    Sub('fixed', fixed_strategy, run_fixed, n=50, items=INTEGRATORS),
    Sub('adaptive', adapt_strategy, run_adapt, n=25, items=[
        'ts.newmark', 'ts.velocity_verlet', 'ts.central_difference', 'ts.bathe',
        'ts.generalized_alpha']),
    Sub('energy', energy_strategy, run_energy, n=15, items=['ts.newmark',
                                                            'ts.generalized_alpha']),
    Sub('order', order_strategy, run_order, n=15, items=INTEGRATORS),
]
