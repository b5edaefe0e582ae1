"""L01: mechanics, tensor and linear algebra helpers against naive computation."""
import itertools
import math
import os

import numpy as np
import scipy.sparse as sps
import hypothesis.strategies as st

from harness import Sub, check, close
from m04 import Scratch

import sfepy.discrete  # noqa
from sfepy import linalg as la
from sfepy.linalg import geometry as geo
from sfepy.linalg import utils as lu
from sfepy.linalg.sparse import compose_sparse, infinity_norm, insert_sparse_to_csr
from sfepy.linalg.sparse import save_sparse_txt
from sfepy.linalg.eigen import cg_eigs, sym_tri_eigen
from sfepy.mechanics import matcoefs as mc
from sfepy.mechanics import tensors as tn
from sfepy.mechanics import units as un
from sfepy.mechanics.contact_bodies import ContactPlane, ContactSphere

PROP = 'L01'
RULE = ('Cases: random admissible elastic constants and stiffnesses (including piezo), symmetric '
        'and full tensors, rotations, deformation gradients, unit sets and parameters, arrays of '
        'all shapes and modes of the vectorized helpers, simplices, polygons, contact bodies, '
        'sparse matrices, blocks and sizes.  Oracle: the definition evaluated item by item in '
        'NumPy, or the inverse relation.  Non-trivial: more than one item.')
ASSUMPTIONS = ['Poisson numbers in (-0.9, 0.49); positive for pairs with two admissible solutions',
               'well-conditioned matrices and non-degenerate simplices',
               'points at least 1e-6 far from the boundaries of tested shapes',
               'units with the prefixes of the tables of the module']

SEED = st.integers(0, 10 ** 6)


def rng(case):
    return np.random.default_rng(case['seed'])


# --- elastic constants ------------------------------------------------------------------------

NAMES = ['bulk', 'lam', 'mu', 'young', 'poisson', 'p_wave']


def constants(E, nu):
    """The definitions."""
    lam = E * nu / ((1 + nu) * (1 - 2 * nu))
    mu = E / (2 * (1 + nu))
    return dict(young=E, poisson=nu, lam=lam, mu=mu, bulk=E / (3 * (1 - 2 * nu)),
                p_wave=lam + 2 * mu)


def iso(dim, lam, mu):
    """Stiffness matrix from D_ijkl e_kl with doubled shear strains."""
    ij = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
          3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}[dim]
    d = np.eye(dim)
    return np.array([[lam * d[i, j] * d[k, l] + mu * (d[i, k] * d[j, l] + d[i, l] * d[j, k])
                      for k, l in ij] for i, j in ij])


def run_elastic(case):
    E, nu = case['young'], case['poisson']
    ref = constants(E, nu)
    # Two solutions exist for these pairs when the Poisson number is negative.
    for a, b in itertools.combinations(NAMES, 2):
        if {a, b} in ({'young', 'p_wave'}, {'young', 'lam'}) and nu < 0.0:
            continue
        if {a, b} == {'lam', 'poisson'} and abs(nu) < 1e-3:
            continue
        if {a, b} in ({'lam', 'young'}, {'p_wave', 'young'}, {'lam', 'poisson'}) \
           and abs(nu) < 1e-3:
            continue
        ec = mc.ElasticConstants(**{a: ref[a], b: ref[b]})
        got = dict(zip(NAMES, ec.get(NAMES)))
        for n in NAMES:
            close(got[n], ref[n], 1e-7, 1e-9 * (E if n != 'poisson' else 1),
                  '%s from (%s, %s)' % (n, a, b), key='elastic constants')
    ec.init(lam=ref['lam'], mu=ref['mu'])
    close(ec.get(NAMES), [ref[n] for n in NAMES], 1e-9, 0, 'reinitialized', scale=E)
    for args in ({'lam': 1.0}, {'lam': 1.0, 'mu': 2.0, 'bulk': 1.0}, {}):
        try:
            mc.ElasticConstants(**args)
        except ValueError:
            continue
        check(False, '%d constants accepted', len(args))
    n = case['n']
    sh = (n,) if n else ()
    r = rng(case)
    Es = E * (1 + 0.3 * r.uniform(0, 1, sh))
    nus = nu * r.uniform(0.1, 1, sh)
    lam, mu = mc.lame_from_youngpoisson(Es, nus)
    c = constants(Es, nus)
    close(lam, c['lam'], 1e-12, 1e-13 * E, 'lam')
    close(mu, c['mu'], 1e-12, 0, 'mu')
    close(mc.bulk_from_lame(lam, mu), c['bulk'], 1e-11, 0, 'bulk')
    close(mc.bulk_from_youngpoisson(Es, nus), c['bulk'], 1e-11, 0, 'bulk from young')
    for dim in (1, 2, 3):
        D = mc.stiffness_from_youngpoisson(dim, Es, nus)
        check(np.shape(D)[:-2] == sh, 'shape of stiffness')
        Df = np.asarray(D).reshape((-1,) + np.shape(D)[-2:])
        for i, d in enumerate(Df):
            l, m = np.ravel(lam)[i], np.ravel(mu)[i]
            close(d, iso(dim, l, m), 1e-13, 0, 'stiffness in %dD' % dim)
            close(np.asarray(mc.stiffness_from_lame(dim, l, m)), d, 1e-14, 0, 'from lame')
        Dm = np.asarray(mc.stiffness_from_youngpoisson_mixed(dim, Es, nus))
        B = np.asarray(c['bulk'])[..., None, None]
        o = np.array([1.0] * dim + [0] * (tn.dim2sym(dim) - dim))
        close(Dm + B * np.outer(o, o), D, 1e-11, 0, 'mixed stiffness')
        close(np.asarray(mc.stiffness_from_lame_mixed(dim, lam, mu)), Dm, 1e-13, 0, 'mixed')
        if dim > 1:
            e2, n2 = mc.youngpoisson_from_stiffness(np.asarray(D))
            close(e2, Es, 1e-9, 0, 'young from stiffness')
            close(n2, nus, 1e-9, 1e-10, 'poisson from stiffness')
    # Plane stress: zero stress normal to the plane.
    D3 = np.asarray(mc.stiffness_from_youngpoisson(3, Es, nus)).reshape(-1, 6, 6)
    Dp = np.asarray(mc.stiffness_from_youngpoisson(2, Es, nus, plane='stress')).reshape(-1, 3, 3)
    e2, n2 = mc.youngpoisson_from_stiffness(Dp, plane='stress')
    close(e2, np.ravel(Es), 1e-8, 0, 'young from plane stress stiffness')
    close(n2, np.ravel(nus), 1e-8, 1e-9, 'poisson from plane stress stiffness')
    for d3, dp in zip(D3, Dp):
        S = np.linalg.inv(d3)
        ref2 = np.linalg.inv(S[np.ix_([0, 1, 3], [0, 1, 3])])
        close(dp, ref2, 1e-10, 0, 'plane stress stiffness', key='plane stress')
    # Wave speeds.
    rho = case['rho'] * (1 + r.uniform(0, 1, sh))
    vp, vs = mc.wave_speeds_from_youngpoisson(Es, nus, rho)
    close(rho * vp ** 2, c['p_wave'], 1e-12, 0, 'P-wave speed')
    close(rho * vs ** 2, c['mu'], 1e-12, 0, 'S-wave speed')
    e2, n2 = mc.youngpoisson_from_wave_speeds(vp, vs, rho)
    close(e2, Es, 1e-9, 0, 'young from wave speeds')
    close(n2, nus, 1e-9, 1e-10, 'poisson from wave speeds')
    # Orthotropic material.
    y = E * r.uniform(0.5, 1.5, 3)
    p = r.uniform(-0.2, 0.2, 3)
    g = E * r.uniform(0.2, 1, 3)
    S = np.linalg.inv(mc.stiffness_from_yps_ortho3(y, p, g))
    ref = np.diag(np.r_[1 / y, 1 / g])
    for (i, j), v in zip([(0, 1), (0, 2), (1, 2)], p):
        ref[i, j] = ref[j, i] = -v / y[i]
    close(S, ref, 1e-10, 0, 'orthotropic compliance')
    return {'nontrivial': True, 'classes': ['n%d' % n, 'neg' if nu < 0 else 'pos']}


@st.composite
def s_elastic(draw, item=None):
    f = lambda a, b: st.floats(a, b, allow_nan=False)
    return dict(young=10 ** draw(f(-3, 11)), poisson=draw(st.one_of(f(-0.9, 0.49), f(0, 0.49))),
                rho=10 ** draw(f(-2, 4)), n=draw(st.integers(0, 4)), seed=draw(SEED))


# --- plane stress of general materials ----------------------------------------------------------

def spd(r, n):
    a = r.uniform(-1, 1, (n, n))
    return a @ a.T + 0.5 * n * np.eye(n)


def run_plane(case):
    r = rng(case)
    pl = case['plane']
    c3, d3, b3 = spd(r, 6), spd(r, 3), r.uniform(-1, 1, (3, 6))
    tr = mc.TransformToPlane(pl)
    im = sorted(pl)
    is_ = [i for i in range(3) if i not in im]
    ij = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    ms = [k for k, (i, j) in enumerate(ij) if i in im and j in im]
    ss = [k for k in range(6) if k not in ms]
    S = np.linalg.inv(c3)
    close(tr.tensor_plane_stress(c3), np.linalg.inv(S[np.ix_(ms, ms)]), 1e-10, 0,
          'plane stress stiffness')
    # sigma = C e - B^T E, D = B e + d E; zero out-of-plane stresses and charges.
    c2, d2, b2 = tr.tensor_plane_stress(c3, d3, b3)
    for _ in range(2):
        em, Em = r.uniform(-1, 1, 3), r.uniform(-1, 1, 2)
        # Unknown out-of-plane strains and fields.
        A = np.block([[c3[np.ix_(ss, ss)], -b3[np.ix_(is_, ss)].T],
                      [b3[np.ix_(is_, ss)], d3[np.ix_(is_, is_)]]])
        rhs = -np.r_[c3[np.ix_(ss, ms)] @ em - b3[np.ix_(im, ss)].T @ Em,
                     b3[np.ix_(is_, ms)] @ em + d3[np.ix_(is_, im)] @ Em]
        x = np.linalg.solve(A, rhs)
        e, Ef = np.zeros(6), np.zeros(3)
        e[ms], e[ss], Ef[im], Ef[is_] = em, x[:len(ss)], Em, x[len(ss):]
        sig, D = c3 @ e - b3.T @ Ef, b3 @ e + d3 @ Ef
        close(np.r_[sig[ss], D[is_]], 0.0, 0, 1e-10, 'reference')
        b = b2.T if b2.shape == (3, 2) else b2
        close(c2 @ em - b.T @ Em, sig[ms], 1e-10, 0, 'plane stress: stress', key='piezo stress')
        close(b @ em + d2 @ Em, D[im], 1e-10, 0, 'plane stress: electric displacement',
              key='piezo displacement')
    return {'nontrivial': True, 'classes': [str(im)]}


@st.composite
def s_plane(draw, item=None):
    return dict(plane=draw(st.sampled_from([[0, 1], [0, 2], [1, 2], [1, 0], [2, 0]])),
                seed=draw(SEED))


# --- tensors -----------------------------------------------------------------------------------

IJ = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
      3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}


def to_sym(t):
    return np.array([t[i, j] for i, j in IJ[len(t)]])


def to_full(v):
    dim = {1: 1, 3: 2, 6: 3}[len(v)]
    t = np.zeros((dim, dim), v.dtype)
    for k, (i, j) in enumerate(IJ[dim]):
        t[i, j] = t[j, i] = v[k]
    return t


def run_tensors(case):
    r = rng(case)
    n, dim = case['n'], case['dim']
    mag = 10.0 ** case['mag']
    sym = dim * (dim + 1) // 2
    check(tn.dim2sym(dim) == sym and tn.sym2dim(sym) == dim, 'dim2sym')
    k = case['seed'] % 40 + 1
    check(tn.sym2dim(tn.dim2sym(k)) == k, 'sym2dim of %d', k)
    v = mag * r.uniform(-1, 1, (n, sym))
    full = np.array([to_full(x) for x in v])
    close(full[..., :], v[:, tn.get_full_indices(dim)], 0, 0, 'full indices')
    close(full.reshape(n, -1)[:, tn.get_sym_indices(dim)], v, 0, 0, 'sym indices')
    i1, i2 = tn.get_non_diagonal_indices(dim)
    gen = r.uniform(-1, 1, (dim, dim))
    off = [(i, j) for i, j in IJ[dim] if i != j]
    check([gen.flat[a] for a in i1] == [gen[i, j] for i, j in off]
          and [gen.flat[a] for a in i2] == [gen[j, i] for i, j in off], 'non-diagonal indices')
    if not case['vec']:
        gf = mag * r.uniform(-1, 1, (n, dim, dim))
    else:
        gf = full
    tr = np.array([sum(t[i, i] for i in range(dim)) for t in gf])
    close(tn.get_trace(gf, sym_storage=False), tr, 1e-14, 1e-15 * mag, 'trace')
    vol = np.array([t / dim * np.eye(dim) for t in tr])
    close(tn.get_volumetric_tensor(gf, sym_storage=False), vol, 1e-14, 1e-15 * mag, 'volumetric')
    close(tn.get_deviator(gf, sym_storage=False), gf - vol, 1e-14, 1e-15 * mag, 'deviator')
    trs = np.array([np.trace(t) for t in full])
    close(tn.get_trace(v), trs, 1e-14, 1e-15 * mag, 'trace (sym)')
    vs = np.array([to_sym(t / dim * np.eye(dim)) for t in trs])
    close(tn.get_volumetric_tensor(v), vs, 1e-14, 1e-15 * mag, 'volumetric (sym)')
    close(tn.get_deviator(v), v - vs, 1e-14, 1e-15 * mag, 'deviator (sym)')
    # von Mises stress: sqrt(3/2 s:s) of the 3D deviator (plane stress in 2D).
    ref = []
    for t in full:
        t3 = np.zeros((3, 3))
        t3[:dim, :dim] = t
        s = t3 - np.trace(t3) / 3 * np.eye(3)
        ref.append(math.sqrt(1.5 * (s * s).sum()))
    for got in (tn.get_von_mises_stress(v), tn.get_von_mises_stress(full, sym_storage=False)):
        check(got.shape == (n, 1), 'shape of von Mises stress')
        close(got[:, 0], ref, 1e-9, 1e-12 * mag, 'von Mises stress', key='von mises')
    g = mag * r.uniform(-1, 1, (n, dim, dim))
    e = np.array([to_sym(x + x.T) for x in g])
    e[:, :dim] /= 2
    close(tn.get_cauchy_strain(g)[..., 0], e, 1e-14, 0, 'strain', key='strain')
    t2 = mag * r.uniform(-1, 1, (sym, sym))
    t4 = tn.get_t4_from_t2s(t2)
    for a, (i, j) in enumerate(IJ[dim]):
        for b, (p, q) in enumerate(IJ[dim]):
            for x in {(i, j), (j, i)}:
                for y in {(p, q), (q, p)}:
                    check(t4[x + y] == t2[a, b], 't4[%s] from t2[%d, %d]', x + y, a, b)
    # Stress transformations.
    nq = case['nq']
    F = np.eye(dim) + 0.3 * r.uniform(-1, 1, (n, nq, dim, dim))
    S = mag * r.uniform(-1, 1, (n, nq, sym, 1))
    J = np.linalg.det(F)
    tf = tn.StressTransform(F, J[..., None, None] if case['vec'] else None)
    P, sig = tf.get_1pk_from_2pk(S), tf.get_cauchy_from_2pk(S)
    for i in range(n):
        for q in range(nq):
            s = to_full(S[i, q, :, 0])
            close(P[i, q], F[i, q] @ s, 1e-13, 0, '1. Piola-Kirchhoff stress')
            close(sig[i, q, :, 0], to_sym(F[i, q] @ s @ F[i, q].T / J[i, q]), 1e-11, 0,
                  'Cauchy stress')
    return {'nontrivial': n > 1, 'classes': ['%dD' % dim]}


def rot3(r):
    q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    return q * np.sign(np.linalg.det(q))


def run_transform(case):
    r = rng(case)
    n = case['n']
    ang = case['angle']
    R = la.rotation_matrix2d(ang)
    a = math.radians(ang)
    close(R @ [1.0, 0], [math.cos(a), math.sin(a)], 1e-12, 0, 'plane rotation')
    close(R @ [0, 1.0], [-math.sin(a), math.cos(a)], 1e-12, 0, 'plane rotation')
    d = np.array(case['axis'], dtype=float)
    if np.linalg.norm(d) > 1e-3:
        M = la.make_axis_rotation_matrix(case['axis'], a)
        du = d / np.linalg.norm(d)
        # Rodrigues' rotation of vectors by -a.
        x = r.uniform(-1, 1, 3)
        ref = x * math.cos(a) - np.cross(du, x) * math.sin(a) + du * (du @ x) * (1 - math.cos(a))
        close(M @ x, ref, 1e-12, 1e-12, 'rotation about an axis', key='axis rotation')
        close(M @ M.T, np.eye(3), 0, 1e-12, 'orthogonality')
        v = d.copy()
        p = geo.get_perpendiculars(v)
        check((v == d).all(), 'get_perpendiculars() changed its argument', key='perpendiculars')
        for w in p:
            close([w @ d, w @ w], [0, 1], 0, 1e-9 * max(1, np.abs(d).max()), 'perpendicular')
        close(p[0] @ p[1], 0, 0, 1e-10, 'mutually perpendicular')
        w = geo.get_perpendiculars(d[:2] + [7.0, 0])
        close([w @ (d[:2] + [7.0, 0]), w @ w], [0, 1], 0, 1e-9 * max(1, np.abs(d).max()),
              'perpendicular in 2D')
    Ms = np.array([rot3(r) for _ in range(n)])
    coors = r.uniform(-1, 1, (n, 3))
    kw = dict(mtx=Ms)
    if case['cyl']:
        kw = dict(coors=coors)
        Ms = []
        for x in coors:
            rr = math.hypot(x[0], x[1])
            er, et = np.array([x[0], x[1], 0]) / rr, np.array([-x[1], x[0], 0]) / rr
            Ms.append([er, et, [0, 0, 1.0]])
        Ms = np.array(Ms)
        close(tn.prepare_cylindrical_transform(coors, [0, 0, 0]), Ms, 0, 1e-12, 'cylindrical')
        o = r.uniform(-1, 1, 3)
        close(tn.prepare_cylindrical_transform(coors + o, o), Ms, 0, 1e-9, 'shifted origin')
        close(tn.prepare_cylindrical_transform(coors, [0, 0, 0], mode='data'),
              Ms.transpose(0, 2, 1), 0, 1e-12, 'data mode')
    v = r.uniform(-1, 1, (n, 3))
    before = v.copy()
    close(tn.transform_data(v, **kw), [m @ x for m, x in zip(Ms, v)], 1e-12, 0, 'vectors')
    check((v == before).all(), 'data changed')
    t = r.uniform(-1, 1, (n, 6))
    ref = np.array([to_sym(m @ to_full(x) @ m.T) for m, x in zip(Ms, t)])
    close(tn.transform_data(t, **kw), ref, 1e-12, 0, 'tensors', key='second order')
    close(tn.transform_data(t[..., None], **kw), ref[..., None], 1e-12, 0, 'tensors (columns)')
    t4 = r.uniform(-1, 1, (n, 6, 6))
    got = tn.transform_data(t4, **kw)
    # Definition: the transformed tensor applied to transformed strains.
    for m, x, g in zip(Ms, t4, got):
        e = r.uniform(-1, 1, 6)
        w = np.array([1, 1, 1, 2, 2, 2.0])
        em = to_sym(m @ to_full(e) @ m.T)
        close(g @ (w * em), to_sym(m @ to_full(x @ (w * e)) @ m.T), 1e-11, 0,
              'fourth order tensors', key='fourth order')
    try:
        tn.transform_data(v, mtx=np.zeros((n + 1, 3, 3)))
        check(False, 'incompatible numbers of points accepted')
    except ValueError:
        pass
    return {'nontrivial': n > 1, 'classes': ['cylindrical' if case['cyl'] else 'matrices']}


@st.composite
def s_tensors(draw, item=None):
    return dict(n=draw(st.integers(1, 5)), dim=draw(st.sampled_from([2, 3])),
                nq=draw(st.integers(1, 3)), vec=draw(st.booleans()),
                mag=draw(st.integers(-6, 9)), seed=draw(SEED))


@st.composite
def s_transform(draw, item=None):
    f = st.one_of(st.integers(-3, 3).map(float), st.floats(-5, 5, allow_nan=False))
    return dict(n=draw(st.integers(1, 5)), angle=draw(st.floats(-400, 400, allow_nan=False)),
                axis=[draw(f), draw(f), draw(f)], cyl=draw(st.booleans()), seed=draw(SEED))


# --- units ---------------------------------------------------------------------------------------

DIMS = {  # length, time, mass, temperature
    'density': (-3, 0, 1, 0), 'force': (1, -2, 1, 0), 'stress': (-1, -2, 1, 0),
    'energy': (2, -2, 1, 0), 'thermal_expandability': (-1, -2, 1, -1)}
KINDS = {  # time, length, mass
    'one': (0, 0, 0), 'time': (1, 0, 0), 'length': (0, 1, 0), 'mass': (0, 0, 1),
    'frequency': (-1, 0, 0), 'wave_number': (0, -1, 0), 'velocity': (-1, 1, 0),
    'acceleration': (-2, 1, 0), 'density': (0, -3, 1), 'force': (-2, 1, 1),
    'stress': (-2, -1, 1), 'dyn_viscosity': (-1, -1, 1), 'compressibility': (2, 1, -1),
    'energy': (-2, 2, 1)}
PREF = {'n': 1e-9, 'mu': 1e-6, 'm': 1e-3, 'c': 1e-2, '': 1.0, 'k': 1e3, 'M': 1e6, 'G': 1e9}


def parse_unit(s):
    val, name = s.split(' ', 1)
    return float(val), name


def run_units(case):
    pl, pt, pm, pc = case['prefixes']
    coefs = (PREF[pl], PREF[pt], PREF[pm] / 1e3, PREF[pc])  # SI: m, s, kg, C
    us = [un.Unit(pl + 'm'), un.Unit(pt + 's'), un.Unit(pm + 'g'), un.Unit(pc + 'C')]
    for u, p, n in zip(us, (pl, pt, pm, pc), 'msgC'):
        check((u.prefix, u.unit, u.coef) == (p, n, PREF[p]), 'unit %s: %s %s', p + n, u.prefix,
              u.unit, key='unit')
    full = un.get_consistent_unit_set(pl + 'm', pt + 's', pm + 'g', pc + 'C')
    for name, dims in DIMS.items():
        si = np.prod([c ** d for c, d in zip(coefs, dims)])
        q = un.Quantity(name, us)
        uname = un.units_of_quantities[name]
        check(full[name] == q(), 'unit set')
        close(q.coef, si, 1e-10, 0, 'coefficient of %s' % name, key='coef')
        for p in PREF:
            val, s = parse_unit(q(p))
            check(s == p + uname, 'unit name %s', s)
            close(val * PREF[p], si, 1e-10, 0, '%s with the prefix %r' % (name, p), key='prefix')
        val, s = parse_unit(q())
        p = s[:len(s) - len(uname)]
        check(s.endswith(uname) and p in un.prefixes, 'unit %s', s)
        close(val * un.prefixes[p], si, 1e-10, 0, '%s' % name)
    # Parameters in new units keep the physical values.
    a, b, c = mult = case['mult']
    r = rng(case)
    pars, kinds = {}, {}
    for i, k in enumerate(case['kinds']):
        pars['p%d' % i] = (r.uniform(0.1, 1, 3).tolist() if k[1] == 'list' else
                           r.uniform(0.1, 1, (2, 2)) if k[1] == 'array' else
                           float(r.uniform(0.1, 1)))
        kinds['p%d' % i] = k[0]
    new = un.apply_units_to_pars(pars, kinds, mult)
    check(list(new) == list(pars), 'names of parameters')
    for k, v in pars.items():
        t, l, m = KINDS[kinds[k]]
        close(np.asarray(new[k]) * a ** t * b ** l * c ** m, np.asarray(v), 1e-10, 0,
              'parameter of kind %s' % kinds[k], key='parameters')
    back = un.apply_units_to_pars(new, kinds, [1 / x for x in mult])
    for k, v in pars.items():
        close(np.asarray(back[k]), np.asarray(v), 1e-10, 0, 'back to original units')
    return {'nontrivial': len(pars) > 0, 'classes': [k[0] for k in case['kinds']]}


@st.composite
def s_units(draw, item=None):
    p = st.sampled_from(sorted(PREF))
    f = st.integers(-6, 6).map(lambda k: 10.0 ** k)
    return dict(prefixes=[draw(p), draw(p), draw(p), draw(st.sampled_from(['', 'm', 'k']))],
                mult=[draw(f), draw(f), draw(f)], seed=draw(SEED),
                kinds=draw(st.lists(st.tuples(st.sampled_from(sorted(KINDS)), st.sampled_from(
                    ['scalar', 'list', 'array'])).map(list), max_size=5)))


# --- vectorized linear algebra ----------------------------------------------------------------------

def run_linalg(case):
    r = rng(case)
    sh = tuple(case['lead'])
    m, n, k = case['mnk']
    cplx = case['cplx']

    def rnd(*s):
        x = r.uniform(-1, 1, s)
        return x + 1j * r.uniform(-1, 1, s) if cplx else x
    for mode in ('AB', 'ATB', 'ABT', 'ATBT'):
        A = rnd(*sh, *((n, m) if 'AT' in mode else (m, n)))
        B = rnd(*sh, *((k, n) if 'BT' in mode else (n, k)))
        C = la.dot_sequences(A, B, mode=mode)
        check(C.shape == sh + (m, k), 'shape of the product')
        for i in np.ndindex(*sh):
            a = A[i].T if 'AT' in mode else A[i]
            b = B[i].T if 'BT' in mode else B[i]
            ref = [[sum(a[p, s] * b[s, q] for s in range(n)) for q in range(k)] for p in range(m)]
            close(C[i], ref, 1e-13, 1e-13, 'product %s' % mode, key='dot')
        if mode in ('AB', 'ATB'):
            v = rnd(*sh, n)
            c = la.dot_sequences(A, v, mode=mode)
            for i in np.ndindex(*sh):
                close(c[i], (A[i].T if 'AT' in mode else A[i]) @ v[i], 1e-13, 1e-13,
                      'matrix-vector product %s' % mode)
    # Determinants, inverses.
    d = case['d']
    A = rnd(*sh, d, d) + 2 * np.eye(d)
    dets = lu.dets_fast(A)
    for i in np.ndindex(*sh):
        ref = sum((-1) ** sum(p[x] > p[y] for x in range(d) for y in range(x + 1, d))
                  * np.prod([A[i][x, p[x]] for x in range(d)])
                  for p in itertools.permutations(range(d)))
        close(dets[i], ref, 1e-11, 1e-11, 'determinant', key='det')
    if d <= 3:
        A4 = rnd(case['n'], case['nq'], d, d) + 2.5 * np.eye(d)
        det = None if case['flag'] else np.linalg.det(A4)
        inv = lu.invs_fast(A4, det)
        check(inv.shape == A4.shape, 'shape of inverses')
        for i in np.ndindex(case['n'], case['nq']):
            close(A4[i] @ inv[i], np.eye(d), 1e-10, 0, 'inverse', key='inv')
            close(inv[i] @ A4[i], np.eye(d), 1e-10, 0, 'inverse', key='inv')
    # Norms.
    x = r.uniform(-1, 1, (case['n'], m)) * 10.0 ** case['mag']
    for ax in (0, 1):
        for ni in (None, 1, 2, 50):
            y = x if ax == 1 else x.T
            ref = [math.sqrt(sum(t * t for t in row[:ni])) for row in y]
            close(la.norm_l2_along_axis(x, axis=ax, n_item=ni), ref, 1e-12, 0, 'norm', key='norm')
            close(la.norm_l2_along_axis(x, axis=ax, n_item=ni, squared=True),
                  np.square(ref), 1e-12, 0, 'squared norm')
    y = r.uniform(-1, 1, (case['n'] + 1, m)) * 10.0 ** min(case['mag'], 0)
    y[0] = 0
    z = y.copy()
    la.normalize_vectors(z)
    for a, b in zip(y, z):
        nn = math.sqrt((a * a).sum())
        close(b, a / nn if nn > 1e-8 else a, 1e-12, 1e-300, 'normalized vector')
    # Sequences.
    seq = r.uniform(-1, 1, sh + (m, n))
    for nd, f, osh in ((1, lambda t: np.array([t.sum(), t.max()]), (2,)),
                       (2, lambda t: t.T @ t, (n, n)), (1, lambda t: t[::-1], (n,))):
        if len(sh) + 2 <= nd:
            continue
        out = lu.apply_to_sequence(seq, f, nd, osh)
        lead = seq.shape[:-nd]
        check(out.shape == lead + osh, 'shape of the sequence')
        for i in np.ndindex(*lead):
            close(out[i], f(seq[i]), 1e-14, 0, 'applied function')
    ax = case['ax'] % (seq.ndim + 1)
    st_ = la.insert_strided_axis(seq, ax, case['n'])
    check(np.array_equal(st_, np.repeat(np.expand_dims(seq, ax), case['n'], ax)),
          'inserted axis', key='axis')
    # Rows, permutations.
    ints = r.integers(0, 3, (case['n'] + 3, case['d']))
    ar = ints.astype([np.int32, np.float64, np.int64][case['ax'] % 3])
    u, ii, inv = la.unique_rows(ar, return_index=True, return_inverse=True)
    inv = np.ravel(inv)
    check(len(set(map(tuple, ar.tolist()))) == len(u) and (ar[ii] == u).all()
          and (u[inv] == ar).all() and (la.unique_rows(ar) == u).all(), 'unique rows', key='rows')
    o = la.argsort_rows(ar)
    check([tuple(t) for t in ar[o].tolist()] == sorted(map(tuple, ar.tolist())), 'sorted rows')
    s1 = r.permutation(np.unique(r.integers(0, 100, 8)))
    s2 = r.permutation(s1)
    check((s1[lu.map_permutations(s1, s2, check_same_items=True)] == s2).all(), 'permutation')
    p2 = ar[ii]
    q2 = p2[r.permutation(len(p2))]
    check((p2[lu.map_permutations(p2, q2)] == q2).all(), 'permutation of rows')
    # Assembling.
    acc = rnd(6)
    add = rnd(case['n'] + 2)
    idx = r.integers(0, 6, case['n'] + 2).astype(np.int32)
    ref = acc.copy()
    for i, v in zip(idx, add):
        ref[i] += v
    la.assemble1d(acc, idx, add)
    close(acc, ref, 1e-13, 1e-14, 'assembling', key='assemble')
    check([tuple(t) for t in la.cycle([m, n])] == [(i, j) for i in range(m) for j in range(n)],
          'cycle')
    ch = case['n']
    parts = list(lu.chunk_arrays([ar, ar[::-1]], ch))
    check(all(0 < len(p[0]) <= ch for p in parts)
          and np.array_equal(np.concatenate([p[0] for p in parts]), ar)
          and np.array_equal(np.concatenate([p[1] for p in parts]), ar[::-1]), 'chunks')
    # Statistics of blocks.
    M = r.uniform(-1, 1, (5, 6))
    cr, cc = sorted(r.integers(1, 5, 1)), sorted(r.integers(1, 6, 1))
    sr = [slice(0, cr[0]), slice(cr[0], 5)]
    sc = [slice(0, cc[0]), slice(cc[0], 6)]
    stats = lu.get_blocks_stats(M, sr, sc)
    for i, a in enumerate(sr):
        for j, b in enumerate(sc):
            bl = M[a, b]
            check(stats['shape'][i, j] == bl.shape, 'shape of a block')
            close([stats[s][i, j] for s in ('min', 'mean', 'max', 'maxabs')],
                  [bl.min(), bl.mean(), bl.max(), abs(bl).max()], 1e-13, 0, 'block statistics')
    return {'nontrivial': int(np.prod(sh)) > 1, 'classes': ['d%d' % d, 'lead%d' % len(sh)]}


@st.composite
def s_linalg(draw, item=None):
    i = st.integers(1, 4)
    return dict(lead=draw(st.lists(i, min_size=1, max_size=3)), mnk=[draw(i), draw(i), draw(i)],
                cplx=draw(st.booleans()), d=draw(i), n=draw(i), nq=draw(i), flag=draw(st.booleans()),
                ax=draw(st.integers(0, 5)), mag=draw(st.integers(-9, 9)), seed=draw(SEED))


# --- geometry ---------------------------------------------------------------------------------------

def simplex(r, dim, n_v=None):
    n_v = n_v or dim + 1
    while 1:
        x = r.uniform(-1, 1, (n_v, dim))
        e = x[1:] - x[0]
        g = e @ e.T
        if np.linalg.det(g) > 0.02 ** (n_v - 1):
            return x


def run_geometry(case):
    r = rng(case)
    dim, n = case['dim'], case['n']
    off = r.uniform(-1, 1, dim) * case['off']
    sx = np.array([simplex(r, dim) + off for _ in range(n)])
    coors = sx.reshape(-1, dim)
    cells = np.arange(n * (dim + 1)).reshape(n, dim + 1)
    vols = geo.get_simplex_volumes(cells, coors)
    ref = [np.linalg.det(s[1:] - s[0]) / math.factorial(dim) for s in sx]
    close(vols, ref, 1e-9, 0, 'volumes')
    s = sx[0]
    bc = r.dirichlet(np.ones(dim + 1), 5)
    pts = bc @ s
    close(geo.barycentric_coors(pts, s).T, bc, 0, 1e-7 * (1 + case['off']), 'barycentric')
    check(geo.points_in_simplex(pts, s).all(), 'points inside')
    out = bc.copy()
    out[:, 0] -= 1.2 * out[:, 0] + 0.05
    out[:, 1] = 1 - out.sum(1) + out[:, 1]
    check(not geo.points_in_simplex(out @ s, s).any(), 'points outside')
    close(geo.transform_bar_to_space_coors(bc[:1], s[None]), bc[:1] @ s, 1e-12, 0, 'bar coors')
    # Circumcentres.
    for n_v in range(2, dim + 2):
        ss = np.array([simplex(r, dim, n_v) + off for _ in range(n)])
        cc = geo.get_simplex_circumcentres(ss)
        for c, v in zip(cc, ss):
            e = v[1:] - v[0]
            h = np.linalg.solve(2 * e @ e.T, (e * e).sum(1))
            close(c, v[0] + h @ e, 1e-6, 1e-6, 'circumcentre', key='circumcentre')
        eps = 0.05
        ci = geo.get_simplex_circumcentres(ss, force_inside_eps=eps)
        for c, ci1, v in zip(cc, ci, ss):
            e = v[1:] - v[0]
            b = np.linalg.lstsq(e.T, ci1 - v[0], rcond=None)[0]
            b = np.r_[1 - b.sum(), b]
            b0 = np.linalg.lstsq(e.T, c - v[0], rcond=None)[0]
            b0 = np.r_[1 - b0.sum(), b0]
            if n_v > 2:
                check(b.min() > eps - 1e-6, 'centre not inside: %s', b, key='inside')
            if b0.min() > eps + 1e-6:
                close(ci1, c, 1e-9, 1e-9, 'inside centre moved')
    # Faces.
    if dim > 1:
        for nv in (3, 4):
            areas, fc, base = [], [], 0
            xs = []
            for _ in range(n):
                t = simplex(r, dim, 3)
                e1, e2 = t[1] - t[0], t[2] - t[0]
                if nv == 4:
                    a, b = r.uniform(0.6, 1.5, 2)
                    t = np.vstack([t[0], t[1], t[0] + a * e1 + b * e2, t[2]])
                gm = math.sqrt(max(0, (e1 @ e1) * (e2 @ e2) - (e1 @ e2) ** 2))
                areas.append(gm * (0.5 if nv == 3 else 0.5 * (a + b)))
                xs.append(t)
                fc.append(np.roll(np.arange(base, base + nv), case['n']))
                base += nv
            close(geo.get_face_areas(fc, np.vstack(xs)), areas, 1e-9, 0, 'face areas', key='area')
    # Inverse mapping of affine and bilinear elements.
    P = r.uniform(-2, 2, (30, 2)) + off[0]
    k = case['nv']
    ang = np.sort(r.uniform(0, 2 * np.pi, k))
    rad = r.uniform(0.3, 1.6, k)
    poly = off[0] + np.c_[rad * np.cos(ang), rad * np.sin(ang)]
    if case['rev']:
        poly = poly[::-1].copy()

    def winding(p):
        t = 0.0
        for a, b in zip(poly, np.roll(poly, -1, 0)):
            u, v = a - p, b - p
            t += math.atan2(u[0] * v[1] - u[1] * v[0], u @ v)
        return abs(t) > np.pi

    def near(p):
        dd = []
        for a, b in zip(poly, np.roll(poly, -1, 0)):
            t = min(1, max(0, (p - a) @ (b - a) / max((b - a) @ (b - a), 1e-30)))
            dd.append(np.linalg.norm(p - a - t * (b - a)))
        return min(dd) < 1e-6
    fl = la.flag_points_in_polygon2d(poly, P)
    for p, f in zip(P, fl):
        if not near(p):
            check(bool(f) == winding(p), 'point %s in polygon: %s', p, f, key='polygon')
    # Tubes and balls.
    C = r.uniform(-2, 2, (40, 3))
    ctr = r.uniform(-0.5, 0.5, 3)
    axis = r.normal(size=3)
    axis /= np.linalg.norm(axis)
    r1, r2 = sorted(r.uniform(0.2, 2.5, 2))
    ln = r.uniform(0.5, 4)
    v = C - ctr
    along = v @ axis
    rad = np.linalg.norm(v - along[:, None] * axis, axis=1)
    inl = np.abs(along) <= ln / 2
    ins = (rad >= r1) & (rad <= r2)
    got = la.get_coors_in_tube(C, ctr, axis, r1, r2, ln)
    check(list(got) == list(np.where(inl & ins)[0]), 'points in a tube', key='tube')
    got = la.get_coors_in_tube(C, ctr, axis, r1, r2, ln, inside_radii=False)
    check(list(got) == list(np.where(inl & ~ins)[0]), 'points outside the radii of a tube',
          key='tube outside')
    dist = np.linalg.norm(v, axis=1)
    for args, ref in (((r2,), dist <= r2), ((r2, r1), (dist <= r2) & (dist >= r1))):
        check(list(la.get_coors_in_ball(C, ctr, *args)) == list(np.where(ref)[0]),
              'points in a ball', key='ball')
        check(list(la.get_coors_in_ball(C, ctr, *args, inside=False)) == list(np.where(~ref)[0]),
              'points outside a ball', key='ball outside')
    # Contact bodies.
    ex = case['extra']
    pts = np.vstack([C, ctr]) if ex else C
    cs = ContactSphere(ctr, r2)
    dd, nn = cs.get_distance(pts)
    close(dd[:40], r2 - dist, 1e-12, 1e-12, 'penetration', key='sphere')
    close(nn[:40], -v / dist[:, None], 1e-10, 1e-10, 'normals', key='sphere')
    if ex:
        close(dd[40], r2, 1e-12, 0, 'penetration of the centre')
    msk = cs.mask_points(pts, 0.01)
    check((msk[:40] == (dist <= r2 + 0.01)).all(), 'points in the sphere')
    if case['dn'] is not None:
        axis = np.array(case['dn'], dtype=float)
        axis /= np.linalg.norm(axis)
    along = v @ axis
    p1, p2 = geo.get_perpendiculars(axis.copy())
    t = np.sort(r.uniform(0, 2 * np.pi, 5))
    pl = np.c_[np.cos(t), np.sin(t)] * r.uniform(0.5, 2, 5)[:, None]
    bounds = ctr + pl @ np.array([p1, p2])
    cp = ContactPlane(ctr, axis * 3.0, bounds)
    close(cp.get_distance(C), along, 1e-11, 1e-12, 'distance to the plane', key='plane')
    c2 = np.c_[v @ p1, v @ p2]
    ref = la.flag_points_in_polygon2d(pl, c2)
    shr = la.flag_points_in_polygon2d(pl * (1 + 1e-6), c2) == la.flag_points_in_polygon2d(
        pl * (1 - 1e-6), c2)
    check((cp.mask_points(C) == ref)[shr].all(), 'points above the plane polygon',
          key='plane mask')
    return {'nontrivial': n > 1, 'classes': ['%dD' % dim, 'poly%d' % k]}


@st.composite
def s_geometry(draw, item=None):
    return dict(dim=draw(st.sampled_from([1, 2, 3])), n=draw(st.integers(1, 4)),
                off=draw(st.sampled_from([0, 0, 1, 30])), nv=draw(st.integers(3, 8)),
                rev=draw(st.booleans()), extra=draw(st.booleans()),
                dn=draw(st.sampled_from([None, None, [0, 0, 1], [0, 0, -1], [1, 0, 0],
                                         [0, -1, 0]])), seed=draw(SEED))


# --- sparse matrices ----------------------------------------------------------------------------------

FMT = ['csr', 'csc', 'coo']


def run_sparse(case):
    r = rng(case)
    rs, cs = case['rows'], case['cols']
    dense, blocks = [], []
    for i, a in enumerate(rs):
        dr, br = [], []
        for j, b in enumerate(cs):
            d = r.uniform(-1, 1, (a, b)) * (r.uniform(0, 1, (a, b)) < 0.6)
            if case['zero'][(i * len(cs) + j) % len(case['zero'])]:
                dr.append(np.zeros((a, b)))
                br.append(0)
            else:
                f = FMT[(i + j) % 3]
                dr.append(d)
                br.append(getattr(sps, f + ('_array' if case['arr'] else '_matrix'))(d))
        dense.append(dr)
        blocks.append(br)
    zr = [all(isinstance(b, int) for b in row) for row in blocks]
    zc = [all(isinstance(row[j], int) for row in blocks) for j in range(len(cs))]
    ref = np.block(dense)
    allz = all(zr)
    if not allz:
        for sizes in ('none', 'sizes', 'slices'):
            kw, exp = {}, ref
            if sizes == 'sizes':
                kw = dict(row_sizes=rs, col_sizes=cs)
            if sizes == 'slices':
                ro, co = np.cumsum([0] + rs), np.cumsum([0] + cs)
                kw = dict(row_sizes=[slice(int(a), int(b)) for a, b in zip(ro, ro[1:])],
                          col_sizes=[slice(int(a), int(b)) for a, b in zip(co, co[1:])])
            try:
                m = compose_sparse(blocks, **kw)
            except ValueError:
                check(sizes == 'none' and (any(zr) or any(zc)), 'composition rejected')
                continue
            check(not (sizes == 'none' and (any(zr) or any(zc))), 'unknown sizes accepted',
                  key='unknown sizes')
            check(m.shape == ref.shape, 'shape %s', m.shape)
            close(m.toarray(), ref, 0, 0, 'composed matrix', key='compose')
        for i, j in [(0, 0)]:
            try:
                bad = list(rs)
                bad[[k for k, z in enumerate(zr) if not z][0]] += 1
                compose_sparse(blocks, row_sizes=bad, col_sizes=cs)
                check(False, 'incompatible sizes accepted')
            except ValueError:
                pass
    # Norm.
    for f in FMT:
        a = getattr(sps, f + '_array')(ref)
        close(infinity_norm(a), np.abs(ref).sum(1).max(), 1e-13, 0, 'infinity norm', key='norm')
    close(infinity_norm(ref), np.abs(ref).sum(1).max(), 1e-13, 0, 'infinity norm')
    b = ref * (r.uniform(0, 1, ref.shape) < 0.5)
    close(lu.max_diff_csr(sps.csr_array(ref), sps.csr_array(b)), np.abs(ref - b).max(), 1e-14, 0,
          'maximum difference')
    # Insertion into a preallocated matrix.
    n = sum(rs) + 2
    m2 = np.array(dense[0][0])
    a, c = m2.shape
    big = r.uniform(-1, 1, (n, n + sum(cs)))
    ir = np.sort(r.permutation(n)[:a]).astype(np.int32)
    ic = np.sort(r.permutation(n + sum(cs))[:c]).astype(np.int32)
    args = (ir, ic)
    if case['slices']:
        o1, o2 = int(r.integers(0, n - a + 1)), int(r.integers(0, n + sum(cs) - c + 1))
        ir, ic = np.arange(o1, o1 + a), np.arange(o2, o2 + c)
        args = (slice(o1, o1 + a), slice(o2, o2 + c))
    mtx = sps.csr_array(big)
    insert_sparse_to_csr(mtx, sps.csr_array(m2), *args)
    exp = big.copy()
    exp[np.ix_(ir, ic)] += m2
    close(mtx.toarray(), exp, 1e-14, 0, 'inserted matrix', key='insert')
    # Text files.
    for f in ('csr', 'csc'):
        a = getattr(sps, f + '_array')(ref)
        with Scratch() as tmp:
            fn = os.path.join(tmp, 'm.txt')
            save_sparse_txt(fn, a, fmt='%d %d %.17e\n')
            lines = open(fn).read().split('\n')
            check(lines[0].split() == [str(x) for x in ref.shape] and lines[1] == str(a.size),
                  'header of the text file')
            got = np.zeros(ref.shape)
            for line in lines[2:]:
                if line.strip():
                    i, j, v = line.split()
                    got[int(i), int(j)] += float(v)
            close(got, ref, 1e-15, 0, 'text file (%s)' % f, key='text')
    # Eigenvalues by conjugate gradients.
    k = case['k']
    q, _ = np.linalg.qr(r.normal(size=(k, k)))
    ev = np.sort(np.linspace(1, 2 + k, k) + r.uniform(-0.2, 0.2, k))
    A = (q * ev) @ q.T
    rhs = q @ r.uniform(0.5, 1.5, k)
    x, it, hist, eigs = cg_eigs(sps.csr_array(A), rhs=rhs, i_max=k, eps_r=1e-14)
    close(A @ x, rhs, 1e-7, 0, 'solution by conjugate gradients', key='cg')
    check(len(eigs) == it + 1, 'number of eigenvalues')
    if len(eigs) == k:
        close(np.sort(eigs), ev, 1e-6, 0, 'eigenvalues by conjugate gradients', key='cg')
    d0, d1 = r.uniform(-1, 1, k), r.uniform(-1, 1, k)
    T = np.diag(d0) + np.diag(d1[:-1], 1) + np.diag(d1[:-1], -1)
    close(sym_tri_eigen(np.array([d0, d1])), np.linalg.eigvalsh(T), 1e-9, 1e-10,
          'eigenvalues of a tridiagonal matrix')
    return {'nontrivial': len(rs) * len(cs) > 1, 'classes': ['slices' if case['slices'] else 'idx']}


@st.composite
def s_sparse(draw, item=None):
    i = st.integers(1, 4)
    return dict(rows=draw(st.lists(i, min_size=1, max_size=3)),
                cols=draw(st.lists(i, min_size=1, max_size=3)),
                zero=draw(st.lists(st.booleans(), min_size=1, max_size=9)),
                arr=draw(st.booleans()), slices=draw(st.booleans()), k=draw(st.integers(2, 7)),
                seed=draw(SEED))


SUBS = [Sub('elastic', s_elastic, run_elastic, 60, 1000),
        Sub('plane', s_plane, run_plane, 40, 600),
        Sub('tensors', s_tensors, run_tensors, 150, 3000),
        Sub('transform', s_transform, run_transform, 150, 3000),
        Sub('units', s_units, run_units, 25, 400),
        Sub('linalg', s_linalg, run_linalg, 150, 3000),
        Sub('geometry', s_geometry, run_geometry, 150, 3000),
        Sub('sparse', s_sparse, run_sparse, 150, 3000)]
