"""Property-check runner: Hypothesis-driven generation, sharded over processes.

A check module defines PROP (id), RULE (text) and SUBS (list of Sub).  A Sub
couples a generator of JSON-able cases with an oracle `run(case)` that raises
Violation (or lets an exception of the code under test escape) when the
property is broken and returns a label dict otherwise.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import bootstrap


class Violation(Exception):
    """The property is broken.  `key` identifies a finding (see known_findings.json)."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    """The generated case is outside the domain (counted, must be rare)."""


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key=key)


def close(a, b, rtol=1e-9, atol=1e-11, msg='', key=None, scale=None):
    """Compare arrays with tolerance relative to the largest magnitude."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if b.ndim == 0:
        b = np.broadcast_to(b, a.shape)
    if a.shape != b.shape:
        raise Violation('%s: shapes differ: %s vs %s' % (msg, a.shape, b.shape), key=key)
    if a.size == 0:
        return 0.0
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        if not (np.isfinite(b).all()):
            raise Violation('%s: reference not finite' % msg, key=key)
        raise Violation('%s: non-finite values' % msg, key=key)
    sc = max(np.abs(b).max(), np.abs(a).max()) if scale is None else scale
    err = np.abs(a - b).max()
    if err > atol + rtol * sc:
        ii = np.unravel_index(np.abs(a - b).argmax(), a.shape)
        raise Violation('%s: values differ: max err %.3e (scale %.3e) at %s: %r vs %r'
                        % (msg, err, sc, tuple(int(i) for i in ii), a[ii], b[ii]), key=key)
    return err


class Sub:
    def __init__(self, name, strategy, run, n=50, thorough=None, items=None, shards=None,
                 examples=(), case_timeout=200):
        """`strategy(item)` -> Hypothesis strategy of cases (dicts); n examples per item."""
        self.name = name
        self.strategy = strategy
        self.run = run
        self.n = n
        self.thorough = n * 12 if thorough is None else thorough
        self.items = [None] if items is None else list(items)
        self.shards = shards
        self.examples = list(examples)
        self.case_timeout = case_timeout


def chash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def iseed(*args):
    return int(hashlib.sha256(repr(args).encode()).hexdigest()[:12], 16)


KNOWN_FILE = os.path.join(bootstrap.VERIF, 'known_findings.json')


def load_known(prop):
    try:
        data = json.load(open(KNOWN_FILE))
    except FileNotFoundError:
        return []
    return [f for f in data['findings'] if f['property'] == prop and f['status'] == 'open']


class Worker:
    """Runs a list of (sub, item, n) jobs in a forked process."""

    def __init__(self, prop, known, seed, idx, jobs, deadline, outdir):
        self.prop, self.known, self.seed, self.idx = prop, known, seed, idx
        self.jobs, self.deadline, self.outdir = jobs, deadline, outdir
        self.cur = os.path.join(outdir, 'cur%d' % idx)
        self.out = os.path.join(outdir, 'out%d' % idx)
        self.res = {'evaluations': 0, 'skipped': 0, 'deadline_skipped': 0, 'nontrivial': {},
                    'classes': {}, 'samples': {}, 'violations': [], 'errors': [],
                    'known_hits': {}, 'subs': {}}
        self.history = []

    def one(self, sub, case):
        """Run one case; return None or a failure record."""
        with open(self.cur, 'w') as fd:
            json.dump({'sub': sub.name, 'case': case, 't': time.time(),
                       'timeout': sub.case_timeout}, fd)
        try:
            info = sub.run(case) or {}
            info = {"nontrivial": info} if isinstance(info, bool) else info
        except Skip:
            self.res['skipped'] += 1
            return None
        except (KeyboardInterrupt, SystemExit) as exc:
            if isinstance(exc, KeyboardInterrupt):
                raise
            return {'msg': 'the code under test called exit: %s' % exc, 'key': None,
                    'tb': traceback.format_exc()}
        except MemoryError:
            raise
        except Violation as exc:
            if exc.key is not None and any(exc.key == k['key'] for k in self.known):
                self.res['known_hits'].setdefault(exc.key, str(exc)[:500])
                self.res['evaluations'] += 1
                return None
            return {'msg': str(exc), 'key': exc.key, 'tb': traceback.format_exc()}
        except Exception as exc:
            tb = traceback.format_exc()
            if isinstance(exc, OSError) and 'No space left' in str(exc):
                raise
            return {'msg': 'unexpected %s: %s' % (type(exc).__name__, exc), 'key': None,
                    'tb': tb}
        self.res['evaluations'] += 1
        sd = self.res['subs'].setdefault(sub.name, [0, 0])
        sd[0] += 1
        nt = info.get('nontrivial', True)
        if nt:
            h = chash([sub.name, case])
            if h not in self.res['nontrivial']:
                self.res['nontrivial'][h] = 1
                sd[1] += 1
            sm = self.res['samples'].setdefault(sub.name, [])
            if len(sm) < 2:
                sm.append(case)
        for c in info.get('classes', ()):
            c = '%s/%s' % (sub.name, c)
            self.res['classes'][c] = self.res['classes'].get(c, 0) + 1
        return None

    def stop_requested(self):
        return (time.time() > self.deadline
                or os.path.exists(os.path.join(self.outdir, 'stop')))

    def run_job(self, sub, item, n, shard, examples):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        state = {'fail': None, 'orig': None, 't0': None, 'n_after': 0}

        def body(case):
            if state['fail'] is not None:
                state['n_after'] += 1
                if time.time() - state['t0'] > 30 or state['n_after'] > 120:
                    return
            elif self.stop_requested():
                self.res['deadline_skipped'] += 1
                return
            rec = self.one(sub, case)
            if len(self.history) < 400:
                self.history.append((sub.name, case))
            if rec is not None:
                rec = dict(rec, sub=sub.name, case=case)
                if state['fail'] is None:
                    state['orig'] = rec
                    state['t0'] = time.time()
                    rec['history'] = list(self.history)
                state['fail'] = rec
                raise AssertionError('violation')

        for case in examples:
            if callable(case):
                case = case()
            try:
                body(case)
            except AssertionError:
                break
        if state['fail'] is None:
            strat = sub.strategy(item) if sub.strategy is not None else None
            if strat is not None:
                test = settings(max_examples=n, database=None, deadline=None,
                                suppress_health_check=list(HealthCheck),
                                phases=(Phase.generate, Phase.shrink),
                                report_multiple_bugs=False, print_blob=False,
                                )(given(strat)(body))
                test = hypothesis.seed(iseed(self.seed, self.prop, sub.name,
                                             json.dumps(item), shard))(test)
                try:
                    test()
                except AssertionError:
                    if state['fail'] is None:
                        raise
                except BaseException as exc:
                    # Flaky after the shrinking budget is exhausted.
                    if state['fail'] is None:
                        raise
                    if isinstance(exc, KeyboardInterrupt):
                        raise
        if state['fail'] is not None:
            self.res['violations'].append([state['fail'], state['orig']])
            open(os.path.join(self.outdir, 'stop'), 'w').close()

    def run(self):
        devnull = os.open(os.devnull, os.O_WRONLY)
        self.err = os.dup(2)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        cwd = os.path.join(self.outdir, 'cwd%d' % self.idx)
        os.makedirs(cwd)
        os.chdir(cwd)
        import tempfile
        os.environ['TMPDIR'] = tempfile.tempdir = cwd
        for sub, item, n, shard, examples in self.jobs:
            if self.stop_requested():
                self.res['deadline_skipped'] += n
                continue
            try:
                t0 = time.time()
                self.run_job(sub, item, n, shard, examples)
                if os.environ.get('VERIF_TIMES'):
                    self.res.setdefault('times', []).append(
                        [round(time.time() - t0, 2), sub.name, str(item), shard])
            except BaseException:
                self.res['errors'].append('%s %s: %s' % (sub.name, item,
                                                         traceback.format_exc()))
                break
        with open(self.out + '.tmp', 'w') as fd:
            json.dump(self.res, fd)
        os.rename(self.out + '.tmp', self.out)


def _fork(fun):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            fun()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    return pid


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def run_isolated(prop, known, sub, cases, timeout):
    """Run cases in a fresh process; return failure record of the last one or None."""
    outdir = os.path.join(bootstrap.SCRATCH, 'iso%d' % time.time_ns())
    os.makedirs(outdir)
    w = Worker(prop, known, 0, 0, [], time.time() + 1e6, outdir)

    def fun():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        cwd = os.path.join(outdir, 'cwd')
        os.makedirs(cwd)
        os.chdir(cwd)
        rec = None
        for s, c in cases:
            rec = w.one(s, c)
        with open(w.out + '.tmp', 'w') as fd:
            json.dump([rec, w.res['known_hits']], fd)
        os.rename(w.out + '.tmp', w.out)
    pid = _fork(fun)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            _kill(pid)
            os.waitpid(pid, 0)
            return {'msg': 'hang: no result within %d s' % timeout, 'key': None, 'tb': ''}, {}
        time.sleep(0.02)
    if os.path.exists(w.out):
        return json.load(open(w.out))
    if os.WIFSIGNALED(st):
        return {'msg': 'the process died with signal %d' % os.WTERMSIG(st), 'key': None,
                'tb': ''}, {}
    return {'msg': 'the process died with status %s' % st, 'key': None, 'tb': ''}, {}


def main(mod, argv):
    t_start = float(os.environ.get('VERIF_T0', time.time()))
    prop = mod.PROP
    subs = {s.name: s for s in mod.SUBS}
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)
    if '--replay' in argv:
        rep = json.load(open(os.path.join(REPLAY_CWD, argv[argv.index('--replay') + 1])))
        cases = [(subs[s], c) for s, c in rep.get('history', [])] + \
            [(subs[rep['sub']], rep['case'])]
        rec, kh = run_isolated(prop, known, subs[rep['sub']], cases, 600)
        if rec:
            print('reproduced: %s\n%s' % (rec['msg'], rec['tb']))
            print('VIOLATION property=%s replay=%s' % (prop, argv[argv.index('--replay') + 1]))
            return 1
        print('not reproduced', kh)
        return 0
    only = argv[argv.index('--sub') + 1].split(',') if '--sub' in argv else None

    outdir = os.path.join(bootstrap.SCRATCH, 'work')
    os.makedirs(outdir)
    budget = float(os.environ.get('VERIF_BUDGET', 400 if tier == 'quick' else 3000))
    deadline = time.time() + budget
    ncpu = min(8, os.cpu_count() or 1)

    # Known findings: demonstrate each one from its recorded case.
    n_known = 0
    for k in known:
        rec, kh = run_isolated(prop, known, subs[k['sub']], [(subs[k['sub']], k['case'])], 300)
        if k['key'] in kh:
            n_known += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        elif rec is None:
            print('note: known finding %s no longer fails' % k['key'])
        else:
            # Fails differently: not the listed finding.
            return report(mod, prop, tier, seed, t_start, None,
                          [[dict(rec, sub=k['sub'], case=k['case'])] * 2], known)

    # Split into jobs and deal them to processes.
    jobs = []
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        n = s.n if tier == 'quick' else s.thorough
        ni = len(s.items)
        shards = s.shards or max(1, min(ncpu, n // 4) if ni < ncpu else 1)
        if tier == 'thorough':
            shards = max(shards, min(ncpu, max(1, n // 10)))
        pairs = [(sh, item, n // shards + (1 if sh < n % shards else 0))
                 for sh in range(shards) for item in s.items]
        pairs = [p for p in pairs if p[2]]
        for i, (sh, item, m) in enumerate(pairs):
            jobs.append((s, item, m, sh, s.examples[i::len(pairs)]))
    # Deterministic small groups, scheduled dynamically.
    n_groups = min(len(jobs), ncpu * 6)
    groups = [jobs[i::n_groups] for i in range(n_groups)]
    pending = [Worker(prop, known, seed, i, g, deadline, outdir) for i, g in enumerate(groups)]
    running = {}
    results = []
    crashes = []
    errors = []
    while pending or running:
        while pending and len(running) < ncpu:
            w = pending.pop(0)
            running[_fork(w.run)] = w
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            w = running.pop(pid)
            _kill(pid)
            if os.path.exists(w.out):
                results.append(json.load(open(w.out)))
            else:
                cur = json.load(open(w.cur)) if os.path.exists(w.cur) else None
                if os.WIFSIGNALED(st) and cur is not None:
                    crashes.append(({'msg': 'the process died with signal %d'
                                     % os.WTERMSIG(st), 'key': None, 'tb': ''}, cur))
                    open(os.path.join(outdir, 'stop'), 'w').close()
                else:
                    errors.append('worker %d died with status %s, case %s' % (w.idx, st, cur))
        elif pid == 0:
            now = time.time()
            for p, w in list(running.items()):
                if os.path.exists(w.cur):
                    try:
                        cur = json.load(open(w.cur))
                    except ValueError:
                        continue
                    if now - cur['t'] > cur['timeout']:
                        _kill(p)
                        os.waitpid(p, 0)
                        running.pop(p)
                        crashes.append(({'msg': 'hang: no result within %d s'
                                         % cur['timeout'], 'key': None, 'tb': ''}, cur))
                        open(os.path.join(outdir, 'stop'), 'w').close()
            time.sleep(0.02)

    viol = []
    known_hits = {}
    for r in results:
        viol += r['violations']
        errors += r['errors']
        known_hits.update(r['known_hits'])
    for rec, cur in crashes:
        rec = dict(rec, sub=cur['sub'], case=cur['case'])
        viol.append([rec, rec])
    return report(mod, prop, tier, seed, t_start, results, viol, known, errors)


def report(mod, prop, tier, seed, t_start, results, viol, known, errors=()):
    subs = {s.name: s for s in mod.SUBS}
    results = results or []
    errors = list(errors)
    confirmed = []
    for fail, orig in viol[:2]:
        hist = orig.pop('history', None) or []
        for rec in (fail, orig):
            s = subs[rec['sub']]
            r2, _ = run_isolated(prop, known, s, [(s, rec['case'])], s.case_timeout + 60)
            if r2:
                confirmed.append(dict(r2, sub=rec['sub'], case=rec['case']))
                break
        else:
            cases = [(subs[n], c) for n, c in hist]
            r2 = None
            if cases:
                r2, _ = run_isolated(prop, known, subs[orig['sub']], cases, 600)
            if r2:
                confirmed.append(dict(r2, sub=orig['sub'], case=orig['case'],
                                      history=hist[:-1]))
            else:
                errors.append('violation not reproducible: %s %s' % (orig['msg'], orig['tb']))

    nontrivial = {}
    classes = {}
    samples = []
    sub_counts = {}
    ev = sk = dsk = 0
    for r in results:
        ev += r['evaluations']
        sk += r['skipped']
        dsk += r['deadline_skipped']
        nontrivial.update(r['nontrivial'])
        for k, v in r['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r['subs'].items():
            c = sub_counts.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in r['samples'].items():
            have = sum(1 for s in samples if s['sub'] == k)
            for c in v[:max(0, 2 - have)]:
                samples.append({'sub': k, 'case': c})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE, 'samples': samples,
            'per_subcheck': {k: {'evaluations': v[0], 'nontrivial': v[1]}
                             for k, v in sorted(sub_counts.items())},
            'classes': dict(sorted(classes.items())),
            'outside_domain': sk, 'not_run_time_budget': dsk,
            'known_findings_demonstrated': len(known),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t_start, 2),
        'violations': len(confirmed),
    }
    ed = os.path.join(bootstrap.VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + '.json'), 'w') as fd:
        json.dump(evidence, fd, indent=1)
        fd.write('\n')
    if os.environ.get('VERIF_TIMES'):
        times = sorted((t for r in results for t in r.get('times', [])), reverse=True)
        for t in times[:25]:
            print(t)
    print('%s: %d evaluations, %d distinct non-trivial, %d outside domain, %d not run, %.1f s'
          % (prop, ev, len(nontrivial), sk, dsk, evidence['wall_s']))
    for k, v in sorted(sub_counts.items()):
        print('   %-28s %6d %6d' % (k, v[0], v[1]))
    if os.environ.get('VERIF_CLASSES'):
        for k, v in sorted(classes.items()):
            print('      %-50s %6d' % (k, v))
    if confirmed:
        rd = os.path.join(bootstrap.VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for rec in confirmed[:1]:
            path = os.path.join(rd, '%s-%s.json' % (prop, chash([rec['sub'], rec['case']])))
            with open(path, 'w') as fd:
                json.dump(dict(rec, property=prop), fd, indent=1)
            print('%s %s\n%s' % (rec['sub'], rec['msg'], rec['tb'][-3000:]))
            print('case: %s' % json.dumps(rec['case'])[:2000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR of the check:\n' + '\n'.join(errors[:3]))
        return 2
    if ev == 0 and not known:
        print('ERROR of the check: nothing was evaluated')
        return 2
    return 0


REPLAY_CWD = os.getcwd()
