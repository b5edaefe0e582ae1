"""S05: time steppers against a model; saved steps; restarts."""
import glob
import os

import numpy as np
import hypothesis.strategies as st

import gen
import pb
from harness import Sub, check, close

from sfepy.base.base import Struct
from sfepy.base.conf import ProblemConf
from sfepy.discrete import Problem
from sfepy.solvers import Solver
from sfepy.solvers.ts import TimeStepper, VariableTimeStepper, get_print_info
from sfepy.solvers.ts_solvers import adapt_time_step, get_min_dt
from sfepy.solvers.ts_controllers import TimesSequenceTSC

PROP = 'S05'
RULE = ('Cases: time grids x operation sequences on steppers; adaptive runs with prescribed '
        'nonlinear solver outcomes; evolution problems x saving options x restart steps. '
        'Oracle: a model stepper, a model of the documented step adaptation, the prescribed '
        'saving times, the states of the uninterrupted run.  Non-trivial: more than one step.')
ASSUMPTIONS = ['restarts with a fixed time step, from a step before the last one']


def grid(case):
    t0 = case['t0']
    n = case['n']
    t1 = t0 + case['len']
    return t0, t1, n, np.array([t0 + (t1 - t0) * i / (n - 1) for i in range(n)]) if n > 1 \
        else np.array([t0])


def make(case):
    t0, t1, n, times = grid(case)
    if case['how'] == 'n':
        ts = TimeStepper(t0, t1, n_step=n)
    elif case['how'] == 'dt':
        ts = TimeStepper(t0, t1, dt=(t1 - t0) / (n - 1) * (1 + case['eps'] / max(n, 10)))
    elif case['how'] == 'both':
        ts = TimeStepper(t0, t1, dt=case['len'] * 0.37, n_step=n)
    elif case['how'] == 'conf':
        ts = TimeStepper.from_conf(Struct(t0=t0, t1=t1, dt=None, n_step=n, quasistatic=True))
        check(ts.is_quasistatic, 'quasistatic flag')
    elif case['how'] == 'ts':
        ts = TimeStepper(0.0, 7.0, n_step=5)
        ts.set_from_ts(TimeStepper(t0, t1, n_step=n), step=0)
    else:
        o = TimeStepper(t0, t1, n_step=n)
        ts = TimeStepper(*[o.t0, o.t1, o.dt, o.n_step, 0])
    return ts


def run_fixed(case):
    t0, t1, n, times = grid(case)
    if n == 1 and case['how'] in ('dt',):
        n = 2
        times = np.array([t0, t1])
        case = dict(case, n=2)
    ts = make(case)
    sc = max(abs(t0), abs(t1))
    tol = 1e-13 * sc
    nd = len(str(n - 1)) if n > 1 else 1
    check(ts.n_step == n, 'number of steps %s instead of %d', ts.n_step, n)
    close(ts.times, times, 0, tol, 'times')
    check(ts.times[0] == t0 and (n == 1 or ts.times[-1] == t1), 'end times')
    if n > 1:
        close(ts.dt, (t1 - t0) / (n - 1), 0, tol, 'dt')
    check(ts.n_digit == nd and ts.suffix % (n - 1) == str(n - 1).zfill(nd), 'suffix')
    check(get_print_info(n)[0] == nd, 'print info')
    step = 0

    def same(what):
        check(ts.step == step, '%s: step %s instead of %s', what, ts.step, step)
        close(ts.time, times[step], 0, tol, what + ': time')
        close(ts.nt, (times[step] - t0) / (t1 - t0), 0, 1e-12, what + ': nt')
    same('start')
    saved = None
    sub = False
    for op, arg in case['ops']:
        if op == 'advance':
            ts.advance()
            step = min(step + 1, n - 1)
            sub = False
        elif op == 'set':
            k = arg % (2 * n) - n
            ts.set_step(k)
            step = k % n
            sub = False
        elif op == 'nt':
            nt = (arg % 11) / 10.0
            if abs(nt * (n - 1) % 1 - 0.5) < 1e-9:
                continue
            ts.set_step(None, nt=nt)
            step = int(np.floor(nt * (n - 1) + 0.5))
            sub = False
        elif op == 'bad':
            for k in (n, -n - 1, n + arg):
                try:
                    ts.set_step(k)
                except ValueError:
                    continue
                check(False, 'step %d of %d accepted', k, n)
        elif op == 'get':
            saved = (step, dict(ts.get_state()))
        elif op == 'restore' and saved is not None:
            ts.set_state(**saved[1])
            step = saved[0]
            sub = False
        elif op == 'sub':
            if not sub:
                ts.set_substep_time(0.25 * (arg % 4))
                close(ts.time, times[step] + 0.25 * (arg % 4), 0, 1e-12 * (sc + 1), 'substep')
                ts.restore_step_time()
        elif op == 'iter':
            k = arg % n
            got = list(ts.iter_from(k))
            step = n - 1
            check([g[0] for g in got] == list(range(k, n)), 'visited steps %s', got)
            close([g[1] for g in got], times[k:], 0, tol, 'visited times')
        elif op == 'iterall':
            got = []
            for s, t in ts:
                got.append((s, t))
                check(ts.step == s and ts.time == t, 'state inside of the iteration')
                if len(got) == 1 + arg % n:
                    break
            step = len(got) - 1
            check([g[0] for g in got] == list(range(len(got))), 'visited steps %s', got)
            close([g[1] for g in got], times[:len(got)], 0, tol, 'visited times')
        elif op == 'copy':
            o = TimeStepper(0, 1, n_step=3)
            o.set_from_ts(ts)
            check(o == ts and o.step == step, 'copied stepper')
            close(o.times, times, 0, tol, 'copied times')
            check(not (TimeStepper(t0, t1 + 1, n_step=n) == ts)
                  and not (TimeStepper(t0, t1, n_step=n + 1) == ts), 'different stepper equal')
        same(op)
    return {'nontrivial': n > 1, 'classes': [case['how'], 'n%d' % min(n, 20)]}


T0 = st.sampled_from([0.0, 1.0, -2.5, 1e-3, 100.0])
LEN = st.sampled_from([1.0, 0.1, 3.0, 1e-4, 1e4, 0.7, 1 / 3.])
OPS = st.lists(st.tuples(st.sampled_from(
    ['advance', 'advance', 'set', 'nt', 'bad', 'get', 'restore', 'sub', 'iter', 'iterall',
     'copy']), st.integers(0, 400)).map(list), max_size=10)


def s_fixed(item=None):
    return st.fixed_dictionaries(dict(
        t0=T0, len=LEN, n=st.one_of(st.integers(1, 12), st.integers(1, 300)), ops=OPS,
        eps=st.sampled_from([0.0, 0.4, -0.4, 1e-9, -1e-9]),
        how=st.sampled_from(['n', 'dt', 'both', 'conf', 'ts', 'data'])))


def run_variable(case):
    t0, t1, n, times = grid(dict(case, n=max(case['n'], 2)))
    n = len(times)
    if case['how'] in ('dt', 'both'):
        ts = VariableTimeStepper(t0, t1, dt=(t1 - t0) / (n - 1))
    elif case['how'] == 'conf':
        ts = VariableTimeStepper.from_conf(Struct(t0=t0, t1=t1, dt=None, n_step=n,
                                                  quasistatic=False))
    else:
        ts = VariableTimeStepper(t0, t1, n_step=n)
    L = t1 - t0
    dt0 = L / (n - 1)
    tol = 1e-12 * max(abs(t0), abs(t1))
    close(ts.get_default_time_step(), dt0, 1e-12, 0, 'default time step')
    for rep in range(2):
        # A plain run visits the equidistant times.
        got = list(ts)
        check([g[0] for g in got] == list(range(n)), 'steps %s of %d', [g[0] for g in got][-2:],
              n)
        close([g[1] for g in got], times, 0, tol, 'times')
        close(ts.times, times, 0, tol, 'recorded times')
    # Changes of the step.
    model = [t0]
    dt = ts.dt
    close(dt, dt0, 1e-12, 0, 'time step')
    snap = None
    it = ts.iter_from(0)
    k = 0
    restored = False
    cur = None
    for guard in range(3000):
        try:
            s, t = next(it)
        except StopIteration:
            break
        check(model[-1] - (t0 if len(model) == 1 else model[-2]) >= 0, 'time goes back')
        check(s == len(model) - 1, 'step %s instead of %s', s, len(model) - 1)
        close(t, model[-1], 0, tol, 'time')
        if s % 7 == 0 or s < 12:
            close(ts.times, model, 0, tol, 'recorded times')
        close(ts.nt, (t - t0) / L, 0, 1e-7 + 10 * tol / L, 'nt')
        check(len(model) == 1 or model[-2] < t1 - 1e-9 * L + tol, 'step after the end time')
        if k < len(case['ops']):
            op, arg = case['ops'][k]
            k += 1
            f = [0.5, 2.0, 0.2, 1.25, 1 / 3.][arg % 5]
            if op in ('advance', 'iter'):
                dt = max(dt0 * 0.2, min(dt * f, L / 2))
                ts.set_time_step(dt)
            elif op in ('set', 'nt') and s > 0:
                dt = max(dt0 * 0.2, min(dt * f, L / 2))
                ts.set_time_step(dt, update_time=True)
                model[-1] = model[-2] + dt
                close(ts.time, model[-1], 0, tol, 'updated time')
                close(ts.times[-1], model[-1], 0, tol, 'updated recorded time')
            elif op == 'bad':
                for b in (s + 1, s + 5):
                    try:
                        ts.set_step(b)
                    except ValueError:
                        continue
                    check(False, 'step %d accepted', b)
                ts.set_step(s) if s else None
            elif op == 'get':
                snap = (dict(ts.get_state()), list(model), dt)
            elif op == 'restore' and snap is not None and not restored:
                if arg % 2:
                    ts = VariableTimeStepper(t0, t1, n_step=n)
                ts.set_state(**snap[0])
                model, dt = list(snap[1]), snap[2]
                check(ts.step == len(model) - 1 and ts.n_step == len(model), 'restored step')
                close(ts.time, model[-1], 0, tol, 'restored time')
                close(ts.dt, dt, 1e-13, 0, 'restored time step')
                it = ts.iter_from_current()
                restored = True
                continue
        if abs(model[-1] - t1) > 1e-9 * L + tol and model[-1] < t1:
            model.append(model[-1] + dt)
            cur = None
        else:
            model.append(None)
            check(next(it, None) is None, 'step after the end time')
            model.pop()
            break
    else:
        check(False, 'endless iteration')
    check(model[-1] >= t1 - 1e-9 * L - tol, 'stopped at %s before the end', model[-1])
    return {'nontrivial': n > 2, 'classes': [case['how'], 'n%d' % min(n, 20)]}


def run_adaptive(case):
    """The documented step adaptation with prescribed solver outcomes."""
    p = case
    outcomes = list(p['outcomes'])
    n = p['n']
    calls = []

    class NLS(object):
        status = Struct(condition=0, n_iter=0)

        def __call__(self, vec, status=None, **kw):
            c = outcomes.pop(0) if outcomes else 1
            calls.append((tss.ts.time, tss.ts.dt, c))
            self.status.condition = 0 if c else 1
            self.status.n_iter = c
            return vec + tss.ts.dt

        def fun(self, vec):
            return 0 * vec

        def copy(self):
            return self
    kw = dict(dt_red_factor=p['red'], dt_red_max=p['redmax'], dt_inc_factor=p['inc'],
              dt_inc_on_iter=p['oniter'], dt_inc_wait=p['wait'])
    conf = Struct(name='ts', kind='ts.adaptive', t0=1.0, t1=1.0 + p['len'], n_step=n,
                  verbose=False, **kw)
    nls = NLS()
    tss = Solver.any_from_conf(conf, nls=nls)
    visited = []
    tss(np.zeros(2), nls=nls, poststep_fun=lambda ts, v: visited.append(
        (ts.step, ts.time)) or v)
    # Model.
    outcomes = list(p['outcomes'])
    dt0 = p['len'] / (n - 1)
    red, wait = 1.0, 0
    t, dt = 1.0, dt0
    exp, ecalls = [(0, 1.0)], []
    t1 = 1.0 + p['len']
    s = 0
    while t < t1 - 1e-11 * p['len']:
        told = t
        t = told + dt
        s += 1
        while 1:
            c = outcomes.pop(0) if outcomes else 1
            ecalls.append((t, dt, c))
            if c:
                if c <= p['oniter']:
                    wait += 1
                    if wait > p['wait']:
                        if red < 1.0:
                            red *= p['inc']
                            dt = dt0 * red
                        wait = 0
                else:
                    wait = 0
                break
            red *= p['red']
            if red < p['redmax']:
                break
            dt = dt0 * red
            t = told + dt
            wait = 0
        exp.append((s, t))
        check(s < 5000, 'model does not end')
    check(len(visited) == len(exp), '%d steps instead of %d', len(visited), len(exp))
    close(visited, exp, 1e-11, 0, 'visited steps and times')
    close(calls, ecalls, 1e-11, 0, 'solver calls')
    adt = Struct(red=1.0, red_max=p['redmax'], red_factor=p['red'], dt0=dt0)
    r = 1.0
    while r >= p['redmax']:
        r *= p['red']
    close(get_min_dt(adt), dt0 * r, 1e-12, 0, 'minimum step')
    return {'nontrivial': 0 in p['outcomes'], 'classes': ['fail%d' % (0 in p['outcomes'])]}


def s_adaptive(item=None):
    return st.fixed_dictionaries(dict(
        n=st.integers(2, 8), len=st.sampled_from([1.0, 0.3, 12.0]),
        red=st.sampled_from([0.2, 0.5, 0.9]), redmax=st.sampled_from([1e-3, 0.1, 0.3]),
        inc=st.sampled_from([1.25, 2.0, 1.1]), oniter=st.integers(1, 4),
        wait=st.integers(0, 3), outcomes=st.lists(st.sampled_from([0, 0, 1, 2, 4, 5]),
                                                  max_size=14)))


def fun_load(ts, coors, mode=None, **kw):
    if mode == 'qp':
        return {'f': (np.sin(3 * ts.time) + coors[:, :1] * ts.time).reshape(-1, 1, 1)}


def fun_ebc(ts, coors, bc=None, problem=None, **kw):
    return ts.time ** 2 + coors[:, 0]


def fun_ic(coors, ic=None, **kw):
    return np.cos(coors).sum(axis=1)


def evolution(case, opts, t=None):
    """A problem with time derivatives, time dependent load and boundary conditions."""
    dim = int(case['mesh']['kind'][0])
    kind = case['pb']
    x = gen.raw(case['mesh'])['coors'][:, 0]
    xc = x.min() + 1e-5 + case['xcut'] * (x.max() - x.min())
    reg = {'Omega': 'all', 'Left': ('vertices in (x < %.6f)' % xc,
                                    'vertex')}
    conf = dict(
        options=dict({'nls': 'newton', 'ls': 'ls', 'ts': 'ts',
                      'output_dir': case['dir']}, **opts),
        fields={'temperature': ('real', 1, 'Omega', case['order'])},
        regions=reg, integrals={'i': 4},
        functions={'load': (fun_load,), 'ebc': (fun_ebc,), 'ic': (fun_ic,)},
        materials={'m': ({'c': 0.3, 'd': 2.0, 'e': 0.5},), 'f': 'load'},
        ics={'ic': ('Omega', {'u.0': 'ic'})},
        ebcs={'e1': ('Left', {'u.0': 'ebc'})},
        solvers={'ls': ('ls.auto_direct', {}),
                 'newton': ('nls.newton', {'i_max': 4, 'eps_a': 1e-9, 'eps_r': 0.0,
                                           'is_linear': kind != 'nl'}),
                 'ts': ('ts.simple', dict(t0=case['t0'], t1=case['t0'] + case['len'],
                                          n_step=case['n'], quasistatic=bool(case['qs'])))})
    eq = 'dw_laplace.i.Omega(m.c, v, u)'
    hist = 1
    if kind in ('heat', 'nl'):
        eq += ' + dw_dot.i.Omega(m.d, v, du/dt) = dw_volume_lvf.i.Omega(f.f, v)'
    else:
        eq += ' + dw_dot.i.Omega(m.d, v, du/dt) + dw_dot.i.Omega(m.e, v, u[-1])' \
              ' = dw_volume_lvf.i.Omega(f.f, v)'
        hist = 1
    conf['variables'] = {'u': ('unknown field', 'temperature', 0, hist),
                         'v': ('test field', 'temperature', 'u')}
    conf['equations'] = {'b': eq}
    return pb.problem(case['mesh'], conf)


def out_steps(case, ext='vtk'):
    fs = [os.path.basename(f) for f in glob.glob(os.path.join(case['dir'], '*.' + ext))]
    return sorted(int(f.split('.')[-2]) for f in fs if 'restart' not in f)


def run_save(case):
    """Saved steps are the requested ones."""
    os.makedirs('out', exist_ok=True)
    for f in glob.glob('out/*'):
        os.remove(f)
    case = dict(case, dir='out')
    t0, t1, n = case['t0'], case['t0'] + case['len'], case['n']
    times = t0 + (t1 - t0) * np.arange(n) / (n - 1)
    how = case['save']
    tol = 1e-9 * case['len']
    if how == 'all':
        st_, exp = 'all', list(range(n))
    elif how == 'int':
        k = case['k']
        st_ = k
        req = list(t0 + (t1 - t0) * np.arange(k) / max(k - 1, 1))
        exp = None
    elif how == 'list':
        rs = np.random.RandomState(case['seed'])
        st_ = req = sorted(t0 + (t1 - t0) * rs.rand(case['k']))
        exp = None
    elif how == 'times':
        # Some of the times of the grid.
        rs = np.random.RandomState(case['seed'])
        idx = np.sort(rs.permutation(n)[:case['k']])
        st_ = req = list(times[idx])
        exp = list(idx)
    else:
        exp = [i for i in range(n) if i % 3 == case['k'] % 3]
        st_ = lambda ts: ts.step % 3 == case['k'] % 3
    if exp is None:
        exp, il = [], 0
        for i in range(n):
            if il < len(req) and times[i] + tol >= req[il]:
                exp.append(i)
                il += 1
    p = evolution(case, {'save_times': st_})
    steps = []
    for rep in range(1 + case['twice']):
        p.solve(verbose=False, step_hook=lambda pb, ts, v: steps.append((ts.step, ts.time)))
        check([s[0] for s in steps] == list(range(n)), 'steps %s', steps)
        close([s[1] for s in steps], times, 1e-12, 1e-12, 'times')
        check(out_steps(case) == sorted(exp), 'saved steps %s instead of %s (%s)',
              out_steps(case), exp, how)
        steps.clear()
        for f in glob.glob('out/*'):
            os.remove(f)
        if case['twice']:
            p = evolution(case, {'save_times': st_})
    return {'nontrivial': len(exp) > 1, 'classes': [how]}


def run_restart(case):
    os.makedirs('out', exist_ok=True)
    for f in glob.glob('out/*'):
        os.remove(f)
    case = dict(case, dir='out')
    n = case['n']
    states = {}

    def hook(pb, ts, variables):
        states[ts.step] = (ts.time, variables().copy())
    p = evolution(case, {'save_restart': True})
    p.solve(verbose=False, step_hook=hook, save_results=False)
    full = dict(states)
    check(sorted(full) == list(range(n)), 'steps')
    files = sorted(glob.glob('out/*restart*.h5'))
    check(len(files) == n, '%d restart files', len(files))
    nd = len(str(n - 1))
    for k, fn in enumerate(files):
        check(fn.endswith('restart-%s.h5' % str(k).zfill(nd)), 'name of restart file %s', fn)
    ks = sorted(set([case['k'] % (n - 1), case['seed'] % (n - 1)]))
    for k in ks:
        states.clear()
        p = evolution(case, {'load_restart': files[k]})
        v = p.solve(verbose=False, step_hook=hook, save_results=False)
        check(sorted(states) == list(range(k + 1, n)), 'steps %s after restart from %d',
              sorted(states), k)
        for s in states:
            close(states[s][0], full[s][0], 1e-13, 1e-13, 'time after restart')
            close(states[s][1], full[s][1], 1e-11, 1e-11,
                  'state of step %d after restart from %d' % (s, k))
        close(v(), full[n - 1][1], 1e-11, 1e-11, 'final state after restart')
    # Only the last restart file is kept.
    for f in glob.glob('out/*'):
        os.remove(f)
    p = evolution(case, {'save_restart': -1})
    p.solve(verbose=False, save_results=False)
    left = [os.path.basename(f) for f in glob.glob('out/*restart*')]
    check(left == [os.path.basename(files[-1])], 'left restart files %s', left)
    return {'nontrivial': n > 2, 'classes': [case['pb'], 'n%d' % n]}


def s_evol(item=None):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['1_2', '2_3', '2_4', '3_4'], max_cells=2, drop=0),
        pb=st.sampled_from(['heat', 'hist', 'nl']), order=st.integers(1, 2),
        xcut=st.sampled_from([0.2, 0.45]), t0=st.sampled_from([0.0, 0.5]),
        len=st.sampled_from([1.0, 0.4]), n=st.integers(2, 12), qs=st.integers(0, 1),
        save=st.sampled_from(['all', 'int', 'list', 'times', 'fun']), k=st.integers(1, 12),
        twice=st.integers(0, 1), seed=st.integers(0, 1000)))


SUBS = [Sub('fixed', s_fixed, run_fixed, n=400, thorough=20000),
        Sub('variable', s_fixed, run_variable, n=200, thorough=10000),
        Sub('adaptive', s_adaptive, run_adaptive, n=200, thorough=10000),
        Sub('save', s_evol, run_save, n=40, thorough=2000),
        Sub('restart', s_evol, run_restart, n=40, thorough=2000)]
