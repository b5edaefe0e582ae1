"""S03: eigenvalue solvers against dense reference spectra and the eigenvalue equations."""
import warnings

import numpy as np
import scipy.linalg as sla
import scipy.sparse as sps
import hypothesis.strategies as st

from harness import Sub, Skip, check, close

from sfepy.base.base import Struct
import sfepy.discrete  # noqa
from sfepy.solvers import Solver
from sfepy.solvers.eigen import eig

PROP = 'S03'
RULE = ('Cases: matrix pairs (symmetric definite / indefinite, Hermitian, nonsymmetric; sparse, '
        'dense; with and without the second matrix) with well separated spectra x solver, method, '
        'part of the spectrum, number of eigenvalues, eigenvectors or not; quadratic problems.  '
        'Oracle: scipy.linalg.eig spectra, the eigenvalue equation, linear independence of the '
        'vectors.  Non-trivial: more than one eigenvalue returned.')
ASSUMPTIONS = ['slepc, matlab and octave are not available',
               'iterative methods with enough iterations and separated spectra']

warnings.simplefilter('ignore')


def ortho(rng, n, cplx):
    a = rng.normal(size=(n, n))
    if cplx:
        a = a + 1j * rng.normal(size=(n, n))
    return np.linalg.qr(a)[0]


def spectrum(rng, n, kind):
    """Well separated (also in modulus) eigenvalues."""
    lam = np.cumsum(rng.uniform(0.5, 1.5, n)) + 0.3
    lam = lam[rng.permutation(n)]
    if kind == 'indef':
        lam = lam * rng.choice([-1, 1], n)
    return lam * 10.0 ** rng.integers(-2, 3)


def pair(case):
    """A, B with a known spectrum: A x = lam B x."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    cls = case['cls']
    cplx = cls in ('herm',)
    if cls in ('spd', 'indef', 'herm'):
        lam = spectrum(rng, n, 'spd' if cls == 'spd' else 'indef')
        q = ortho(rng, n, cplx)
        a = (q * lam) @ q.conj().T
        a = 0.5 * (a + a.conj().T)
        b = None
        if case['gen']:
            ll = np.eye(n) + 0.3 / np.sqrt(n) * np.tril(rng.uniform(-1, 1, (n, n)))
            ll = ll * rng.uniform(0.5, 2)
            a = ll @ a @ ll.conj().T
            a = 0.5 * (a + a.conj().T)
            b = ll @ ll.conj().T
    else:
        # Nonsymmetric with real and complex pairs of eigenvalues.
        lam = spectrum(rng, n, 'indef' if cls == 'nons-neg' else 'spd').astype(complex)
        blk = np.zeros((n, n))
        i = 0
        while i < n:
            if i + 1 < n and rng.random() < 0.4:
                m = abs(lam[i])
                th = rng.uniform(0.2, 1.2)
                re, im = m * np.cos(th), m * np.sin(th)
                blk[i:i + 2, i:i + 2] = [[re, im], [-im, re]]
                lam[i:i + 2] = [re + 1j * im, re - 1j * im]
                i += 2
            else:
                blk[i, i] = lam[i].real
                i += 1
        s = np.eye(n) + 0.3 / np.sqrt(n) * rng.uniform(-1, 1, (n, n))
        a = s @ blk @ np.linalg.inv(s)
        b = None
        if case['gen']:
            b = np.eye(n) + 0.3 / np.sqrt(n) * rng.uniform(-1, 1, (n, n))
            b = b @ b.T
            a = b @ a
    return a, b, lam


def wrap(a, fmt):
    if a is None or fmt == 'dense':
        return a
    return getattr(sps, fmt)(a)


def pick(lam, which, k):
    """The requested part of the spectrum: (selected, is the cut unambiguous?)."""
    key = {'LM': -np.abs(lam), 'SM': np.abs(lam), 'LA': -lam.real, 'SA': lam.real,
           'LR': -lam.real, 'SR': lam.real, 'LI': -np.abs(lam.imag),
           'SI': np.abs(lam.imag)}[which]
    ii = np.argsort(key, kind='stable')
    if k is None or k >= len(lam):
        return lam, True
    sc = np.abs(lam).max()
    return lam[ii[:k]], key[ii[k]] - key[ii[k - 1]] > 3e-2 * sc


def match(got, want, tol, what):
    """Equality of multisets of numbers."""
    got = np.asarray(got)
    want = np.asarray(want)
    check(got.shape == want.shape, '%s: %s eigenvalues instead of %s', what, got.shape, want.shape)
    rest = list(want)
    for g in got:
        d = [abs(g - w) for w in rest]
        i = int(np.argmin(d))
        check(d[i] <= tol, '%s: eigenvalue %r is not in the requested part %s', what, g,
              np.sort_complex(want)[:8])
        rest.pop(i)


def verify(case, out, a, b, lam, which, k, tol, what, vecs_always=False):
    n = a.shape[0]
    sc = np.abs(lam).max()
    if case['vecs'] or vecs_always:
        check(isinstance(out, tuple) and len(out) == 2, '%s: no eigenvectors', what)
        eigs, vecs = out
    else:
        check(isinstance(out, np.ndarray), '%s: output %s', what, type(out))
        eigs, vecs = out, None
    if k == 0:
        check(len(eigs) == 0, '%s: %d eigenvalues', what, len(eigs))
        if vecs is not None:
            check(vecs.shape == (n, 0), '%s: vectors %s', what, vecs.shape)
        return eigs
    want, sure = pick(lam, which, k)
    check(eigs.ndim == 1, '%s: shape %s', what, eigs.shape)
    check(len(eigs) == len(want), '%s: %d eigenvalues instead of %d', what, len(eigs), len(want))
    match(eigs, want if sure else pick_near(eigs, lam, tol * sc, what), tol * sc, what)
    if vecs is not None:
        check(vecs.shape == (n, len(eigs)), '%s: vectors of shape %s', what, vecs.shape)
        bb = np.eye(n) if b is None else b
        nrm = np.linalg.norm(vecs, axis=0)
        check((nrm > 1e-8).all(), '%s: zero vectors', what)
        vv = vecs / nrm
        res = a @ vv - (bb @ vv) * eigs
        ref = np.linalg.norm(a, 2) + np.abs(eigs).max() * np.linalg.norm(bb, 2)
        check(np.abs(res).max() <= 10 * tol * ref, '%s: eigenvalue equation violated by %.2e (%.2e)',
              what, np.abs(res).max(), ref)
        check(np.linalg.svd(vv, compute_uv=False).min() > 1e-6, '%s: dependent vectors', what)
    return eigs


def pick_near(eigs, lam, tol, what):
    out = []
    rest = list(lam)
    for g in eigs:
        d = [abs(g - w) for w in rest]
        i = int(np.argmin(d))
        out.append(rest.pop(i))
    return np.array(out)


KINDS = ['eig', 'eigh', 'eigs', 'eigsh', 'shift', 'sgscipy', 'lobpcg', 'primme', 'zero', 'util']


def strategy(kind):
    cls = {'eig': ['spd', 'indef', 'herm', 'nons', 'nons-neg'], 'eigh': ['spd', 'indef', 'herm'],
           'eigs': ['spd', 'indef', 'nons', 'nons-neg'], 'eigsh': ['spd', 'indef', 'herm'],
           'shift': ['spd', 'indef'], 'sgscipy': ['spd', 'indef', 'herm'],
           'lobpcg': ['spd', 'indef'], 'primme': ['spd', 'indef', 'herm'], 'zero': ['spd', 'nons'],
           'util': ['spd', 'indef', 'nons']}[kind]
    return st.fixed_dictionaries({
        'kind': st.just(kind), 'cls': st.sampled_from(cls), 'gen': st.booleans(),
        'n': st.integers(2, 24), 'k': st.one_of(st.none(), st.integers(1, 24)),
        'seed': st.integers(0, 10**6), 'vecs': st.booleans(), 'i': st.integers(0, 99),
        'fmt': st.sampled_from(['csr_array', 'csc_array', 'coo_array', 'dense', 'csr_matrix']),
        'ls': st.sampled_from([None, 'ls.scipy_superlu', 'ls.mumps', 'ls.cholesky',
                               'ls.scipy_umfpack']),
        'via': st.sampled_from(['call', 'init', 'status'])})


def run(case):
    kind = case['kind']
    n = case['n']
    k = case['k']
    if k is not None:
        k = min(k, n)
    if kind in ('eigs', 'eigsh', 'shift'):
        n = max(n, 6)
        k = min(k or 1, n // 2 - 1)  # ARPACK limits
        k = max(k, 1)
    if kind == 'lobpcg':
        n = max(n, 6)
    case = dict(case, n=n)
    a, b, lam = pair(case)
    a0, b0 = a.copy(), None if b is None else b.copy()
    fmt = case['fmt']
    ma, mb = wrap(a, fmt), wrap(b, fmt)
    what = '%s %s%s' % (kind, case['cls'], ' generalized' if b is not None else '')
    pos = (lam.real > 0).all()
    vals = None
    tol = 1e-8
    conf = {'name': 'e'}
    dense = kind in ('eig', 'eigh', 'sgscipy')
    if dense or kind in ('zero', 'util'):
        if kind == 'sgscipy':
            conf.update(kind='eig.sgscipy')
            which = 'SA'
        else:
            which = ['SM', 'LM'][case['i'] % 2]
            meth = {'eig': 'eig', 'eigh': 'eigh', 'zero': 'eig', 'util': 'eig'}[kind]
            conf.update(kind='eig.scipy', method=meth, which=which)
        if kind == 'zero':
            k = 0
    elif kind in ('eigs', 'eigsh'):
        # Symmetric: algebraic or by modulus; general: modulus or real part.
        which = ['LM', 'SM', 'LA', 'SA'][case['i'] % 4] if kind == 'eigsh' \
            else ['LM', 'SM', 'LR', 'SR'][case['i'] % 4]
        conf.update(kind='eig.scipy', method=kind, which=which, maxiter=20000, ncv=n - 1,
                    v0=np.random.default_rng(case['seed']).normal(size=n))
        if fmt == 'coo_array':
            fmt = 'csr_array'
    elif kind == 'shift':
        which = 'SM'
        conf.update(kind='eig.scipy', method='eigsh', which='LM', sigma=0.0, ncv=n - 1,
                    v0=np.random.default_rng(case['seed']).normal(size=n))
        if fmt in ('dense', 'coo_array', 'csr_matrix'):
            fmt = 'csr_array'
        if case['ls'] is not None and (pos or case['ls'] != 'ls.cholesky'):
            conf['linear_solver'] = (case['ls'], {})
    elif kind == 'lobpcg':
        lar = case['i'] % 2 == 0
        which = 'LA' if lar else 'SA'
        tol = 1e-5
        conf.update(kind='eig.scipy_lobpcg', largest=lar, i_max=2000,
                    eps_a=1e-9 * np.abs(lam).max())
        if k is not None and 5 * k >= n or k is None:
            k = max(1, (n - 1) // 5)
        if fmt == 'coo_array':
            fmt = 'csr_array'
    else:
        which = ['LM', 'SM', 'LA', 'SA'][case['i'] % 4]
        conf.update(kind='eig.primme', which=which if case['i'] % 8 < 4 else which.lower(),
                    tol=1e-10, maxiter=100000)
        if which == 'SM' and not pos:
            which = 'SA'
            conf['which'] = 'SA'
        if k is not None and k > n // 2:
            k = n // 2
        if k is None and n > 8:
            k = 3
        if fmt in ('coo_array', 'dense'):
            fmt = 'csr_array'
        tol = 1e-6
    ma, mb = wrap(a, fmt), wrap(b, fmt)
    if kind == 'util':
        tt = [None]
        out = eig(ma, mb, n_eigs=k, eigenvectors=case['vecs'], return_time=tt,
                  solver_kind='eig.scipy', method='eig', which=which)
        check(tt[0] is not None and tt[0] >= 0, 'time not returned')
    else:
        status = {}
        if case['via'] == 'init':
            s = Solver.any_from_conf(Struct(**conf), mtx_a=ma, mtx_b=mb, n_eigs=k,
                                     eigenvectors=case['vecs'], status=status)
            out = s(None)
        else:
            s = Solver.any_from_conf(Struct(**conf))
            vv = case['vecs']
            if not vv and case['i'] % 3 == 0:
                vv = None
            out = s(ma, mb, n_eigs=k, eigenvectors=vv, status=status)
        check(status.get('time', -1) >= 0, 'status %s', status)
    eigs = verify(case, out, a, b, lam, which, k, tol, what)
    da = ma if fmt == 'dense' else ma.toarray()
    check((da == a0).all(), '%s: matrix changed', what)
    if b is not None:
        check(((mb if fmt == 'dense' else mb.toarray()) == b0).all(), '%s: matrix B changed', what)
    # Order of the output.
    if kind in ('eigh', 'sgscipy') and k is None:
        check((np.diff(eigs) >= -1e-12 * np.abs(lam).max()).all(), '%s: not sorted', what)
    if dense and kind != 'sgscipy' and k and which == 'SM':
        check((np.diff(np.abs(eigs)) >= -1e-9 * np.abs(lam).max()).all(), '%s: not sorted', what)
    return dict(nontrivial=np.size(eigs) > 1, classes=[kind, case['cls'], which, fmt,
                                                       'vectors=%s' % case['vecs'],
                                                       'all' if k is None else 'some',
                                                       'B' if b is not None else 'standard'])


# ---------------------------------------------------------------- quadratic problems

def q_strategy(item):
    return st.fixed_dictionaries({
        'n': st.integers(1, 10), 'seed': st.integers(0, 10**6), 'vecs': st.booleans(),
        'method': st.sampled_from(['companion', 'cholesky']), 'mode': st.sampled_from(
            ['normal', 'inverted']), 'k': st.one_of(st.none(), st.integers(1, 10)),
        'which': st.sampled_from(['SM', 'LM']), 'damp': st.sampled_from(['zero', 'sym', 'gyro']),
        'sing': st.booleans(), 'debug': st.booleans(), 'cplx': st.booleans()})


def run_q(case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']

    def sym(lo, hi):
        q = ortho(rng, n, False)
        d = rng.uniform(lo, hi, n)
        return (q * d) @ q.T
    m = sym(0.5, 2)
    m = 0.5 * (m + m.T)
    kk = sym(0.5, 20)
    kk = 0.5 * (kk + kk.T)
    cplx = case['cplx'] and case['method'] == 'companion'
    if case['damp'] == 'zero':
        d = np.zeros((n, n))
    elif case['damp'] == 'sym':
        d = sym(0.1, 2)
    else:
        d = rng.uniform(-1, 1, (n, n))
        d = d - d.T
    if cplx:
        h = 0.3j * rng.uniform(-1, 1, (n, n))
        kk = kk + h + h.conj().T
        d = d * 1j
    sing = case['sing'] and case['mode'] == 'normal' and not cplx
    if sing:
        # A rigid mode, present also in the damping matrix.
        r = np.ones(n) / np.sqrt(n)
        p = np.eye(n) - np.outer(r, r)
        kk = p @ kk @ p
        d = p @ d @ p
    # Reference.
    z = np.zeros((n, n))
    c = np.block([[z, np.eye(n)], [-np.linalg.solve(m, kk), -np.linalg.solve(m, d)]])
    lam = sla.eigvals(c)
    conf = dict(name='q', kind='eig.qevp', method=case['method'], mode=case['mode'],
                debug=case['debug'],
                solver={'kind': 'eig.scipy', 'method': 'eig', 'which': case['which']})
    s = Solver.any_from_conf(Struct(**conf))
    status = {}
    k = None if case['k'] is None else min(case['k'], 2 * n)
    out = s(sps.csr_array(m), sps.csr_array(d), sps.csr_array(kk), n_eigs=k,
            eigenvectors=case['vecs'], status=status)
    check(status['time'] >= 0, 'status')
    eigs = out[0] if case['vecs'] else out
    what = '%s %s %s' % (case['method'], case['mode'], case['which'])
    num = 2 * n if k is None else k
    check(eigs.shape == (num,), '%s: %s eigenvalues instead of %d', what, eigs.shape, num)
    # The requested part concerns the linear problem that is solved (inverted: 1 / w).
    which = case['which']
    if case['mode'] == 'inverted':
        which = {'SM': 'LM', 'LM': 'SM'}[which]
    sc = np.abs(lam).max()
    # Defective double zero eigenvalues are sensitive.
    tol = (1e-6 if sing else 1e-8) * sc
    want, sure = pick(lam, which, k)
    match(eigs, want if sure else pick_near(eigs, lam, tol, what), tol, what)
    if case['vecs']:
        vecs = out[1]
        check(vecs.shape == (n, num), '%s: vectors %s', what, vecs.shape)
        nrm = np.linalg.norm(vecs, axis=0)
        check((nrm > 1e-10).all(), '%s: zero vectors for eigenvalues %s', what, eigs[nrm <= 1e-10])
        x = vecs / nrm
        res = m @ x * eigs**2 + d @ x * eigs + kk @ x
        ref = np.abs(m).max() * np.abs(eigs)**2 + np.abs(d).max() * np.abs(eigs) \
            + np.abs(kk).max()
        check((np.abs(res).max(0) <= 1e-7 * ref).all(), '%s: equation violated: %s (eigenvalues %s)',
              what, np.abs(res).max(0), eigs)
    return dict(nontrivial=n > 1, classes=[case['method'], case['mode'], case['damp'],
                                           'singular' if sing else 'regular',
                                           'complex' if cplx else 'real'])


SUBS = [
    Sub('eigen', strategy, run, n=60, items=KINDS),
    Sub('quadratic', q_strategy, run_q, n=200),
]
