"""W01: phononic band gaps, fading-memory kernels and the recovery at the micro scale."""
import numpy as np
import scipy.linalg as sl
import hypothesis.strategies as st

from harness import Sub, check, close

import sfepy.discrete  # noqa
from sfepy.base.base import Struct
from sfepy.homogenization import coefs_phononic as ph
from sfepy.homogenization import convolutions as cv
from sfepy.homogenization import recovery as rc
from sfepy.homogenization import utils as hu

PROP = 'W01'
RULE = ('Cases: random resonances, eigenmomenta, densities, frequency ranges, margins and '
        'thresholds; random stiffness, coupling and dielectric tensors and wave directions; random '
        'kernels, histories, time grids, correctors and macroscopic fields.  Oracle: inertia of the '
        'mass tensor assembled independently at sampled frequencies, bisection by inertia, explicit '
        'sums and full index contractions.  Non-trivial: more than one resonance or item.')
ASSUMPTIONS = ['resonance frequencies at least 1e-3 apart',
               'zones are judged at a distance of 1e-5 of the interval from their ends']

SEED = st.integers(0, 10 ** 6)


class Prob:
    """What the applications need of a problem."""

    def __init__(self, dim):
        self.dim = dim

    def clear_equations(self):
        pass

    def get_dim(self):
        return self.dim


def app(cls, dim, data, options=None, **kwargs):
    names = list(data)
    obj = cls('app', Prob(dim), dict(requires=names, options=options or {}, **kwargs))
    return obj(data=data, volume=kwargs.get('volume_'))


# --- mass tensors and band gaps ---------------------------------------------------------------

def model(case):
    """Resonances, eigenmomenta and the validity mask."""
    r = np.random.default_rng(case['seed'])
    n, dim = case['n'], case['dim']
    freqs = np.cumsum(r.uniform(0.05, 2, n)) + r.uniform(0, 1)
    ema = r.normal(size=(n, dim)) * r.choice([1, 1, 0.05], n)[:, None]
    if case['aligned']:
        # Different polarizations do not interact.
        ema = ema * np.eye(dim)[r.integers(0, dim, n)]
    valid = r.random(n) > case['masked']
    valid[r.integers(0, n)] = True
    ema[~valid] = 0.0
    rho, vol = r.uniform(0.5, 3), r.uniform(0.5, 4)
    return r, freqs ** 2, ema, valid, rho, vol


def mass_ref(f, eigs, ema, rho, vol):
    m = rho * np.eye(ema.shape[1])
    for lam, e in zip(eigs, ema):
        m = m - f ** 2 / (f ** 2 - lam) * np.outer(e, e) / vol
    return m


def infos(eigs, ema, valid, rho, vol):
    return (Struct(eigs=eigs), Struct(average_density=rho, total_volume=vol),
            Struct(eigenmomenta=ema, valid=valid, n_zeroed=int(np.sum(~valid))))


def run_mass(case):
    r, eigs, ema, valid, rho, vol = model(case)
    evp, dvi, em = infos(eigs, ema, valid, rho, vol)
    dim = case['dim']
    mass = app(ph.AcousticMassTensor, dim, dict(evp=evp, dv=dvi, ema=em))
    uema = np.where(valid[:, None], r.normal(size=ema.shape), 0)
    load = app(ph.AppliedLoadTensor, dim,
               dict(evp=evp, dv=dvi, ema=em, uema=Struct(eigenmomenta=uema, valid=valid)))
    liq = app(ph.AcousticMassLiquidTensor, dim, dict(evp=evp, dv=dvi, ema=em))
    liq.gamma, liq.eta = r.uniform(0.5, 2), r.uniform(0.1, 1)
    for f in r.uniform(0, 1.2 * np.sqrt(eigs[-1]), 6):
        if np.abs(f - np.sqrt(eigs)).min() < 1e-3:
            continue
        close(mass.evaluate(f), mass_ref(f, eigs, ema, rho, vol), 1e-9, 1e-10, 'mass tensor')
        ref = np.eye(dim) - sum(f ** 2 / (f ** 2 - lam) * np.outer(a, b)
                                for lam, a, b in zip(eigs, ema, uema)) / vol
        close(load.evaluate(f), ref, 1e-9, 1e-10, 'applied load tensor')
        ref = rho * np.eye(dim)
        for lam, e in zip(eigs, ema):
            # f^2 / (f^2 - gamma lam + i f eta lam): its real part.
            c = f ** 2 / (f ** 2 - liq.gamma * lam + 1j * f * liq.eta * lam)
            ref = ref - c.real * np.outer(e, e) / vol
        close(liq.evaluate(f), ref, 1e-9, 1e-10, 'mass tensor with a liquid')
    # A resonance has no mass tensor.
    k = int(np.where(valid)[0][0])
    f = 3.0
    mass.eigs = mass.eigs.copy()
    mass.eigs[0] = f * f
    try:
        mass.evaluate(f)
    except ValueError:
        pass
    else:
        check(False, 'the mass tensor at a resonance is not rejected', key='resonance %d' % k)
    # Acoustic tensors.
    sym = dim * (dim + 1) // 2
    C = r.normal(size=(sym, sym))
    C = C @ C.T + np.eye(sym)
    G, d = r.normal(size=(dim, sym)), r.normal(size=(dim, dim))
    d = d @ d.T + np.eye(dim)
    w = r.normal(size=dim)
    nn = w / np.linalg.norm(w)
    idx = {2: [[0, 2], [2, 1]], 3: [[0, 3, 4], [3, 1, 5], [4, 5, 2]]}[dim]
    C4 = C[np.array(idx)[:, :, None, None], np.array(idx)[None, None]]
    cat = np.einsum('ijkl,j,l->ik', C4, nn, nn)
    G3 = G[:, np.array(idx)]
    gam, xi = np.einsum('kij,j,k->i', G3, nn, nn), nn @ d @ nn
    got = app(ph.ChristoffelAcousticTensor, dim, dict(C=C), dict(incident_wave_dir=list(w)))
    close(got, cat, 1e-10, 1e-12, 'Christoffel acoustic tensor')
    got = app(ph.ChristoffelAcousticTensor, dim, dict(C=C, D=d, G=G),
              dict(incident_wave_dir=list(w), mode='piezo'))
    close(got, cat + np.outer(gam, gam) / xi, 1e-10, 1e-12, 'piezoelectric acoustic tensor')
    got = np.sort(app(ph.PhaseVelocity, dim, dict(dv=dvi, cat=cat)))
    close(got, np.sqrt(np.linalg.eigvalsh(cat) / rho), 1e-8, 1e-10, 'phase velocities')
    vecs = [r.normal(size=(3, dim, dim)) for _ in range(2)]
    got = app(ph.PolarizationAngles, dim,
              dict(disp=Struct(logs=Struct(eig_vectors=vecs))), dict(incident_wave_dir=list(w)))
    for a, v in zip(got, vecs):
        ref = np.arccos(np.abs(np.einsum('i,kij->kj', nn, v)) / np.linalg.norm(v, axis=1))
        close(a, ref, 1e-8, 1e-10, 'polarization angles')
    return {'nontrivial': case['n'] > 1, 'classes': ['dim:%d' % dim]}


def inertia_zero(f0, f1, eigs, ema, rho, vol, which):
    """The frequency in which the eigenvalue `which` (increasing) changes its sign, or None."""
    def val(f):
        return np.linalg.eigvalsh(mass_ref(f, eigs, ema, rho, vol))[which]
    if val(f0) > 0 or val(f1) < 0:
        return None
    for _ in range(200):
        f = 0.5 * (f0 + f1)
        if val(f) > 0:
            f1 = f
        else:
            f0 = f
    return f0


ZONES = dict(p='p', w='w', s='s', wp='wp', sw='sw', swp='swp')


def run_gaps(case):
    r, eigs, ema, valid, rho, vol = model(case)
    dim, n = case['dim'], case['n']
    evp, dvi, em = infos(eigs, ema, valid, rho, vol)
    mass = app(ph.AcousticMassTensor, dim, dict(evp=evp, dv=dvi, ema=em))
    opts = dict(freq_margins=tuple(r.uniform(1, 60, 2)), freq_step=r.uniform(1, 20),
                freq_eps=1e-7, zero_eps=1e-9)
    fr = np.sqrt(eigs)
    if case['range'] == 'fixed':
        i0 = int(r.integers(0, n - 1))
        i1 = int(r.integers(i0 + 1, n))
        lo = fr[i0] - r.uniform(0.1, 0.9) * (fr[i0] - (fr[i0 - 1] if i0 else 0))
        hi = fr[i1] + r.uniform(0.1, 0.9) * ((fr[i1 + 1] if i1 + 1 < n else fr[i1] + 1) - fr[i1])
        opts['fixed_freq_range'] = (lo, hi)
    elif case['range'] == 'eigs':
        i0 = int(r.integers(0, n - 1))
        i1 = int(r.integers(i0 + 1, n))
        opts['eig_range'] = [i0, i1 + 1]
        if i1 + 1 == n and case['seed'] % 2:
            opts['eig_range'] = [i0, -1]
    else:
        i0, i1 = 0, n - 1
    data = dict(evp=evp, ema=em, mass=mass)
    if case['full']:
        b = r.normal(size=(dim, dim))
        b = b @ b.T + np.eye(dim)
        data['b'] = b
    bg = app(ph.BandGaps, dim, data, opts)
    # The frequency range.
    inner = fr[i0:i1 + 1]
    close(bg.freq_range_initial, inner, 1e-12, 0, 'initial frequency range')
    close(bg.freq_range, inner[valid[i0:i1 + 1]], 1e-12, 0, 'valid frequency range')
    fm = bg.freq_range_margins
    if case['range'] == 'fixed':
        close(fm[[0, -1]], [lo, hi], 1e-12, 0, 'fixed range')
    else:
        m = 0.01 * np.array(opts['freq_margins']) * (inner[-1] - inner[0])
        a = max(inner[0] - m[0], (fr[i0 - 1] if i0 else 0) + 1e-7)
        b1 = inner[-1] + m[1]
        if i1 + 1 < n:
            b1 = min(b1, fr[i1 + 1] - 1e-7)
        close(fm[[0, -1]], [a, b1], 1e-10, 1e-12, 'margins')
    check(np.all(np.diff(fm) > 0), 'the intervals are not increasing: %s' % fm)
    check(len(bg.gaps) == len(bg.kinds) == len(bg.gap_ranges) == len(fm) - 1, 'number of gaps')
    cls = []
    for k, (f0, f1) in enumerate(zip(fm[:-1], fm[1:])):
        kind = bg.kinds[k][0]
        cls.append(kind)
        rngs = bg.gap_ranges[k]
        check(len(rngs) == len(kind), 'number of zones of %s' % kind)
        check(rngs[0][0] == f0 and rngs[-1][1] == f1
              and all(x[1] == y[0] for x, y in zip(rngs[:-1], rngs[1:]))
              and all(x[0] <= x[1] for x in rngs), 'the zones do not tile the interval: %s' % (rngs,))
        h = 1e-5 * (f1 - f0) + 3e-7
        for (a, b), zone in zip(rngs, kind):
            if b - a < 3 * h:
                continue
            for f in np.r_[a + h, r.uniform(a + h, b - h, 5), b - h]:
                ev = np.linalg.eigvalsh(mass_ref(f, eigs, ema, rho, vol))
                tol = 1e-7 * (rho + np.abs(ev).max())
                ok = {'p': ev[0] > -tol, 's': ev[-1] < tol,
                      'w': ev[0] < tol and ev[-1] > -tol}[zone]
                check(ok, 'zone %s of %s in [%r, %r]: masses %s at %r'
                      % (zone, kind, f0, f1, ev, f), key='zone')
        # The boundaries are the zeros of the eigenvalues.
        for which, gg in ((0, bg.gaps[k][0]), (-1, bg.gaps[k][1])):
            if gg[0] != 0:
                continue
            z = inertia_zero(f0 + 1e-8, f1 - 1e-8, eigs, ema, rho, vol, which)
            check(z is not None, 'a zero reported where there is none', key='zero')
            ev = np.linalg.eigvalsh(mass_ref(gg[1], eigs, ema, rho, vol))
            check(abs(gg[1] - z) < 1e-6 * (f1 - f0) + 2e-7
                  or abs(ev[which]) < 1e-7 * (rho + np.abs(ev).max()),
                  'zero at %r, expected %r' % (gg[1], z), key='zero')
        # The logs.
        lf, le = bg.logs.freqs[k], bg.logs.eigs[k]
        check(len(lf) == len(le) and np.all(np.diff(lf) >= 0), 'logged frequencies', key='log')
        check(lf[0] > f0 and lf[-1] < f1, 'range of logged frequencies', key='log')
        for j in r.integers(0, len(lf), 4):
            mm = mass_ref(lf[j], eigs, ema, rho, vol)
            if case['full']:
                ref = sl.eigvalsh(lf[j] ** 2 * mm, data['b'])
                v = bg.logs.eig_vectors[k][j]
                close(lf[j] ** 2 * mm @ v, data['b'] @ v * le[j],
                      1e-6, 1e-7 * np.abs(ref).max(), 'logged vectors', key='log')
            else:
                ref = np.linalg.eigvalsh(mm)
            close(np.sort(le[j]), ref, 1e-6, 1e-7 * np.abs(ref).max(), 'logged masses', key='log')
    # The sampled classification in a liquid.
    opts2 = Struct(eigensolver='eig.sgscipy', freq_step=0.05, freq_eps=1e-7, zero_eps=1e-9)
    slogs, gaps, kinds = ph.detect_band_gaps(mass, Struct(freq_range=bg.freq_range,
                                                          freq_range_margins=fm), opts2,
                                             gap_kind='liquid')
    for k in range(len(fm) - 1):
        lf = slogs.freqs[k]
        ev = np.array([np.linalg.eigvalsh(mass_ref(f, eigs, ema, rho, vol)) for f in lf])
        if np.abs(ev).min() < 1e-9:
            continue
        strong, weak = ev[:, -1] < 0, (ev[:, 0] < 0) & (ev[:, -1] > 0)
        if isinstance(gaps[k], list):
            got = {'is': np.zeros(len(lf), bool), 'iw': np.zeros(len(lf), bool)}
            for g, kd in zip(gaps[k], kinds[k]):
                got[kd[0]] |= (lf >= g[0][1]) & (lf <= g[1][1])
            check(np.array_equal(got['is'], strong), 'strong gaps in a liquid', key='liquid')
            check(np.array_equal(got['iw'], weak), 'weak gaps in a liquid', key='liquid')
        else:
            exp = {'p': not (strong.any() or weak.any()), 's': strong.all()}[kinds[k][0]]
            check(exp, 'gap %s in a liquid' % (kinds[k],), key='liquid')
    return {'nontrivial': n > 1, 'classes': ['kind:' + c for c in set(cls)]
            + ['range:' + case['range'], 'full:%s' % case['full']]}


@st.composite
def s_mass(draw, item=None):
    return dict(n=draw(st.integers(2, 8)), dim=draw(st.sampled_from([2, 3])),
                aligned=draw(st.booleans()), masked=draw(st.sampled_from([0, 0.3, 0.7])),
                seed=draw(SEED))


@st.composite
def s_gaps(draw, item=None):
    return dict(draw(s_mass()), range=draw(st.sampled_from(['all', 'eigs', 'fixed'])),
                full=draw(st.booleans()))


# --- eigenmomenta and densities ---------------------------------------------------------------

def run_momenta(case):
    from sfepy.discrete import FieldVariable, Problem
    from sfepy.discrete.fem import FEDomain, Field
    from sfepy.mesh.mesh_generators import gen_block_mesh
    r = np.random.default_rng(case['seed'])
    dim, n = case['dim'], case['n']
    dims = r.uniform(0.5, 2, dim)
    mesh = gen_block_mesh(dims, [2 + int(k) for k in r.integers(0, 2, dim)],
                          r.uniform(-1, 1, dim), verbose=False)
    dom = FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    f = Field.from_args('f', np.float64, 'vector', om, approx_order=case['order'])
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    from sfepy.discrete import Equation, Equations, Integral
    from sfepy.terms import Term
    t = Term.new('dw_dot(v, u)', Integral('i', order=2), om, v=v, u=u)
    pb = Problem('p', equations=Equations([Equation('e', t)]), active_only=False)
    pb.time_update()
    co = f.get_coor()
    A, b = r.normal(size=(n, dim, dim)), r.normal(size=(n, dim))
    vecs = np.array([(co @ a.T + c).ravel() for a, c in zip(A, b)]).T
    vol, cent = np.prod(dims), mesh.coors.min(0) + 0.5 * dims
    ref = np.array([(a @ cent + c) * vol for a, c in zip(A, b)])
    got = ph.compute_eigenmomenta('ev_integrate.2.Omega(u)', 'u', pb, vecs)
    close(got, ref, 1e-9, 1e-11, 'eigenmomenta', key='ema')
    # With a threshold.
    ok = np.linalg.norm(ref, axis=1)
    thr = r.uniform(0.05, 0.9)
    tol = thr * ok.max() if case['relative'] else thr
    if np.abs(ok - tol).min() > 1e-6:
        pb.clear_equations = lambda: None
        obj = ph.Eigenmomenta('ema', pb, dict(requires=['evp', 'dv'],
                                              expression='ev_integrate.2.Omega(u)',
                                              options=dict(var_name='u', threshold=thr,
                                                           threshold_is_relative=case['relative'])))
        out = obj(data=dict(evp=Struct(eig_vectors=vecs, eigs=np.arange(n) + 1.0), dv=None))
        check(np.array_equal(out.valid, ok >= tol), 'valid eigenmomenta', key='ema')
        close(out.eigenmomenta, np.where((ok >= tol)[:, None], ref, 0), 1e-9, 1e-11,
              'eigenmomenta over the threshold', key='ema')
        check(out.n_zeroed == np.sum(ok < tol), 'number of zeroed eigenmomenta', key='ema')
    # Average density.
    k = case['n']
    vols, rhos = r.uniform(0.1, 2, k), r.uniform(0.1, 5, k)
    conf = Struct(get_item_by_name=lambda a, name: Struct(values={'rho': rhos[int(name[1:])]}))
    pp = Prob(dim)
    pp.conf = conf
    tot = vols.sum() * r.uniform(1, 1.5)
    obj = ph.DensityVolumeInfo('dv', pp, dict(
        requires=['vf'], options={}, region_to_material={'R%d' % i: ('m%d' % i, 'rho')
                                                         for i in range(k)}))
    obj._get_volume = lambda v: tot
    out = obj(data=dict(vf={'volume_R%d' % i: vols[i] for i in range(k)}))
    close(out.average_density, vols @ rhos / tot, 1e-12, 0, 'average density', key='density')
    check(out.total_volume == tot and all(out.volumes['R%d' % i] == vols[i]
                                          and out.densities['R%d' % i] == rhos[i]
                                          for i in range(k)), 'volumes and densities', key='density')
    return {'nontrivial': n > 1, 'classes': ['relative:%s' % case['relative']]}


@st.composite
def s_momenta(draw, item=None):
    return dict(dim=draw(st.sampled_from([2, 3])), n=draw(st.integers(1, 5)),
                order=draw(st.sampled_from([1, 2])), relative=draw(st.booleans()), seed=draw(SEED))


# --- fading memory ----------------------------------------------------------------------------

def run_memory(case):
    r = np.random.default_rng(case['seed'])
    n, shape = case['n'], tuple(case['shape'])
    times = np.r_[0, np.cumsum(r.uniform(0.02, 0.3, n - 1))]
    if case['uniform']:
        times = np.linspace(0, r.uniform(0.5, 3), n)
    kern = r.uniform(0.2, 1, (n,) + shape)
    ts = Struct(times=times)
    fwd = sum(kern[k] * (times[k + 1] - times[k]) for k in range(n - 1))
    tra = sum(0.5 * (kern[k] + kern[k + 1]) * (times[k + 1] - times[k]) for k in range(n - 1))
    close(hu.integrate_in_time(kern, ts), fwd, 1e-11, 1e-13, 'forward rule', key='integral')
    close(hu.integrate_in_time(kern, ts, scheme='trapezoid'), tra, 1e-11, 1e-13, 'trapezoidal rule',
          key='integral')
    # An exponential kernel is its own approximation.
    c2, c0 = r.uniform(0.3, 2), r.uniform(0.3, 2, shape) * r.choice([-1, 1], shape)
    ex = np.exp(-c2 * times).reshape((n,) + (1,) * len(shape))
    for kk, exact in ((c0 * ex, True), (kern.copy(), False)):
        orig = kk.copy()
        if exact:
            k = cv.ConvolutionKernel('k', times, kk)
            close(k(use_exp=True), orig, 1e-6, 1e-7, 'exponential approximation', key='exp')
            close(k.int_dt(use_exp=True), c0 * (1 - np.exp(-c2 * times[-1])) / c2, 1e-6, 1e-7,
                  'integral of the exponential', key='exp')
            close(k.diff_dt(use_exp=True), -c2 * orig, 1e-6, 1e-6, 'derivative of the exponential',
                  key='exp')
            close(k.ec, [1, c2], 1e-6, 1e-7, 'coefficients of the exponential', key='exp')
        else:
            d = np.exp(-times)
            k = cv.ConvolutionKernel('k', times, kk, decay=d, exp_coefs=[1.0, 1.0], exp_decay=d)
        close(k(), orig, 0, 0, 'full kernel', key='kernel')
        dd = k.diff_dt()
        close(dd[:-1], [(orig[i + 1] - orig[i]) / (times[i + 1] - times[i]) for i in range(n - 1)],
              1e-9, 1e-11, 'differences', key='kernel')
        check(not np.any(dd[-1]), 'the last difference is not zero')
        close(k.int_dt(), sum(orig[i] * (times[i + 1] - times[i]) for i in range(n - 1)),
              1e-11, 1e-13, 'integral of the kernel', key='kernel')
    # Interpolation of a kernel to the times elapsed since the past steps.
    m = case['m']
    st_times = np.r_[0, np.cumsum(r.uniform(0.05, 0.4, m))]
    if case['uniform']:
        # Multiples of the step of the kernel, up to and over its end.
        st_times = times[1] * np.arange(m + 1)
    step = int(r.integers(0, m + 1))
    tt = Struct(step=step, time=st_times[step], times=st_times)
    got = hu.interp_conv_mat(kern, tt, times)
    if step == 0:
        exp = [kern[0]]
    else:
        exp = []
        for s in range(step, 0, -1):
            td = st_times[step] - st_times[s]
            if td > times[-1] + 1e-12:
                break
            j = min(int(np.searchsorted(times, td, side='right')) - 1, n - 2)
            w = (td - times[j]) / (times[j + 1] - times[j])
            exp.append((1 - w) * kern[j] + w * kern[j + 1])
    check(len(got) == len(exp), 'number of interpolated kernels: %d, expected %d'
          % (len(got), len(exp)), key='interp')
    close(np.array(got), np.array(exp), 1e-9, 1e-11, 'interpolated kernels', key='interp')
    return {'nontrivial': n > 2 and step > 1, 'classes': ['uniform:%s' % case['uniform']]}


@st.composite
def s_memory(draw, item=None):
    return dict(n=draw(st.integers(3, 9)), m=draw(st.integers(1, 12)), uniform=draw(st.booleans()),
                shape=draw(st.sampled_from([[1, 1], [3, 3], [2, 3]])), seed=draw(SEED))


# --- recovery ---------------------------------------------------------------------------------

class Steps:
    """Data in time steps."""

    def __init__(self, data):
        self.all, self.steps = data, list(range(len(data)))

    def __getitem__(self, i):
        return self.all[i]


def run_recovery(case):
    r = np.random.default_rng(case['seed'])
    dim, nn, ne = case['dim'], case['n'], case['ne']
    sym = dim * (dim + 1) // 2
    idx = np.array({2: [[0, 2], [2, 1]], 3: [[0, 3, 4], [3, 1, 5], [4, 5, 2]]}[dim])
    iel = int(r.integers(0, ne))
    strain, grad = r.normal(size=(ne, 1, sym, 1)), r.normal(size=(ne, 1, dim, 1))
    e = strain[iel, 0, idx, 0]
    g = grad[iel, 0, :, 0]
    co = r.normal(size=(nn, dim))
    cen = r.normal(size=dim)
    for c in (None, cen):
        x = co - (0 if c is None else c)
        close(rc.compute_u_from_macro(strain, co, iel, c).reshape(nn, dim), x @ e.T, 1e-11, 1e-12,
              'macroscopic displacement', key='macro')
        close(rc.compute_p_from_macro(grad, co, iel, c), x @ g, 1e-11, 1e-12,
              'macroscopic pressure', key='macro')
    # Steady correctors.
    chi = r.normal(size=(dim, dim, nn * dim))
    corrs = {'u_%d%d' % (i, j): chi[i, j].copy() for i in range(dim) for j in range(dim)}
    ref = np.einsum('ijn,ij->n', chi, e)
    base = r.normal(size=nn * dim)
    close(rc.compute_micro_u(corrs, strain[iel, 0, :, 0], 'u', dim), ref, 1e-11, 1e-11,
          'micro displacement', key='micro')
    out = base.copy()
    rc.compute_micro_u(corrs, strain[iel, 0, :, 0], 'u', dim, out=out)
    close(out, base + ref, 1e-11, 1e-11, 'added micro displacement', key='micro')
    crs = np.empty((dim, dim), object)
    for i in range(dim):
        for j in range(dim):
            crs[i, j] = {'u': Struct(data=chi[i, j].copy())}
    out = rc.add_strain_rs(crs, strain, 'u', dim, iel, out=base.copy())
    close(out, base + ref, 1e-11, 1e-11, 'strain correctors', key='micro')
    eta = r.normal(size=(dim, nn))
    cp = [{'p': Struct(data=eta[i].copy())} for i in range(dim)]
    close(rc.combine_scalar_grad(cp, grad, 'p', iel), eta.T @ g, 1e-11, 1e-11,
          'scalar correctors', key='scalar')
    close(rc.combine_scalar_grad(cp, grad, 'p', iel, shift_coors=co), (eta.T + co) @ g,
          1e-11, 1e-11, 'scalar correctors with coordinates', key='scalar')
    pr = r.normal(size=(ne, 1, 1, 1))
    close(rc.compute_p_corr_steady({'p': Struct(data=eta[0].copy())}, pr, 'p', iel),
          eta[0] * pr[iel, 0, 0, 0], 1e-12, 0, 'pressure corrector', key='scalar')
    # Convolutions.
    nf, step = case['nf'], case['step']
    dt = r.uniform(0.1, 1)
    ts = Struct(step=step, dt=dt)
    fp = r.normal(size=(nf, nn))
    fr = r.normal(size=(dim, dim, nf, nn))
    P, E = r.normal(size=(step + 1, ne, 1, 1, 1)), r.normal(size=(step + 1, ne, 1, sym, 1))
    vp = {'x': Steps(fp)}
    vr = np.empty((dim, dim), object)
    for i in range(dim):
        for j in range(dim):
            vr[i, j] = {'x': Steps(fr[i, j])}
    ref = np.zeros(nn)
    for k in range(step + 1):
        if step - k < nf:
            ref += dt * (fp[step - k] * P[k, iel, 0, 0, 0]
                         + np.einsum('ijn,ij->n', fr[:, :, step - k], E[k, iel, 0, idx, 0]))
    for fun in (rc.compute_u_corr_time, rc.compute_p_corr_time):
        close(fun(vr, E, vp, P, 'x', dim, iel, ts), ref, 1e-10, 1e-11, 'fading memory', key='time')
    return {'nontrivial': step > 0 and ne > 1, 'classes': ['dim:%d' % dim, 'cut:%s' % (step >= nf)]}


@st.composite
def s_recovery(draw, item=None):
    return dict(dim=draw(st.sampled_from([2, 3])), n=draw(st.integers(1, 6)),
                ne=draw(st.integers(1, 4)), nf=draw(st.integers(1, 6)),
                step=draw(st.integers(0, 7)), seed=draw(SEED))


SUBS = [Sub('mass', s_mass, run_mass, 150, 2500),
        Sub('gaps', s_gaps, run_gaps, 60, 900),
        Sub('momenta', s_momenta, run_momenta, 25, 300),
        Sub('memory', s_memory, run_memory, 150, 2500),
        Sub('recovery', s_recovery, run_recovery, 150, 2500)]
