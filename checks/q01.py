"""Q01: quadrature rules integrate polynomials exactly up to their order."""
import itertools
from fractions import Fraction
from math import factorial

import numpy as np
import hypothesis.strategies as st

import gen
from harness import Sub, check, close

from sfepy.base.base import Struct
from sfepy.discrete import Integral, Integrals
from sfepy.discrete.quadratures import QuadraturePoints, get_actual_order

PROP = 'Q01'
RULE = ('Cases: a reference cell and an order (all available ones), with random polynomials of '
        'that order (sparse random exponents, always including the extreme ones), moved to random '
        'bounds, and random histories of requests to integrals.  Oracle: exact rational moments.  '
        'Non-trivial: order at least 1.')
ASSUMPTIONS = ['orders up to 47 on lines, 47 per direction on quadrilaterals, 23 on hexahedra, '
               '31 on triangles, 19 on tetrahedra, 17 on wedges (limits of double precision)']
MAX = {'1_2': 47, '2_3': 31, '2_4': 47, '3_4': 19, '3_6': 17, '3_8': 23}
VOL = {'1_2': 1.0, '2_3': 0.5, '2_4': 1.0, '3_4': 1.0 / 6, '3_6': 0.5, '3_8': 1.0}


def moment(g, e):
    e = [int(i) for i in e]
    if g in ('1_2', '2_4', '3_8'):
        out = Fraction(1)
        for a in e:
            out /= a + 1
        return out
    if g in ('2_3', '3_4'):
        out = Fraction(1)
        for a in e:
            out *= factorial(a)
        return out / factorial(sum(e) + len(e))
    return (Fraction(factorial(e[0]) * factorial(e[1]), factorial(e[0] + e[1] + 2))
            / (e[2] + 1))


def admissible(g, order, full, e):
    if g in ('1_2', '2_3', '3_4') or (full and g != '3_6'):
        return sum(e) <= order
    if g == '3_6':
        return e[0] + e[1] <= order and e[2] <= order
    return max(e) <= order


def exponents(g, order, full, rs, n):
    dim = int(g[0])
    out = {(0,) * dim}
    ext = []
    for d in range(dim):
        e = [0] * dim
        e[d] = order
        ext.append(tuple(e))
    if not (g in ('1_2', '2_3', '3_4') or full):
        ext.append((order,) * dim)
    out.update(e for e in ext if admissible(g, order, full, e))
    while n > 0:
        n -= 1
        e = tuple(int(i) for i in rs.randint(0, order + 1, dim))
        if not admissible(g, order, full, e):
            k = rs.permutation(dim)
            left = order
            f = [0] * dim
            for i in k:
                f[i] = int(rs.randint(0, left + 1))
                left -= f[i]
            f[k[-1]] += left
            e = tuple(f)
        if admissible(g, order, full, e):
            out.add(e)
    return sorted(out)


def finding(g, coors, weights, order, full):
    """Known defects of the wedge rules: the rule of the cube, or of a third of the order."""
    if g != '3_6':
        return None
    for key, geo, o in [('wedge-cube-rule', '3_8', order),
                        ('wedge-full-order', '3_6', -(-order // 3))]:
        if key == 'wedge-full-order' and not full:
            continue
        c, w = Integral('f', order=o, full_order=full and geo == '3_8').get_qp(geo)
        if np.array_equal(c, coors) and np.array_equal(w, weights):
            return key
    return None


def check_rule(g, coors, weights, order, full, exps, msg=''):
    dim = int(g[0])
    key = finding(g, coors, weights, order, full)
    check(coors.ndim == 2 and coors.shape[1] == dim and weights.shape == (len(coors),),
          '%s shapes %s %s', msg, coors.shape, weights.shape)
    lo = coors.min()
    hi = coors.max()
    if g in ('2_3', '3_4'):
        hi = coors.sum(1).max()
    elif g == '3_6':
        hi = max(hi, coors[:, :2].sum(1).max())
    check(lo >= -1e-12 and hi <= 1 + 1e-12, '%s points outside of the cell', msg, key=key)
    tol = 1e-12 if order < 20 else 1e-9
    close(weights.sum(), VOL[g], tol, 0, '%s weights' % msg, key=key)
    for e in exps:
        val = (weights * np.prod(coors ** np.array(e), axis=1)).sum()
        ex = float(moment(g, e))
        tol = 3e-12 if order < 18 else 1e-9
        check(abs(val - ex) <= tol * ex, '%s order %d: monomial %s: %.16e, exact %.16e', msg,
              order, e, val, ex, key=key)


def run_rule(case):
    g, order, full = case['geo'], case['order'], case['full']
    rs = np.random.RandomState(case['seed'])
    exps = exponents(g, order, full, rs, case['n'])
    ii = Integral('i', order=order, full_order=full)
    c, w = ii.get_qp(g)
    c2, w2 = Integral('j', order=order, full_order=full).get_qp(g)
    check(np.array_equal(c, c2) and np.array_equal(w, w2), 'repeated requests differ')
    check_rule(g, c, w, order, full, exps, g)
    qp = QuadraturePoints.from_table(g, order, full_order=full)
    check(np.array_equal(qp.coors, c) and np.array_equal(qp.weights, w), 'from_table differs')
    dim = int(g[0])
    oo = order if (full or g in ('1_2', '2_3', '3_4')) else order * dim
    check(qp.order >= oo, 'reported order %s of a rule requested with order %s', qp.order, oo)
    check(abs(qp.volume - VOL[g]) < 1e-12 or g in ('2_3', '3_4'), 'volume of the cell')
    # A random polynomial through integrate().
    co = rs.uniform(-1, 1, len(exps))
    ex = sum(float(moment(g, e)) * a for e, a in zip(exps, co))
    calls = []

    def fun(x):
        calls.append(x.shape)
        return sum(a * np.prod(x ** np.array(e), axis=1) for e, a in zip(exps, co))
    val = Integral('k', full_order=full).integrate(fun, order=order, geometry=g)
    close(val, ex, 1e-9 if order >= 18 else 1e-11, 1e-11 * VOL[g], 'integrate()')
    return {'nontrivial': order > 0, 'classes': [g + ('f' if full else '')]}


@st.composite
def s_rule(draw, item):
    g = item
    full = draw(st.booleans()) if g in ('2_4', '3_8', '3_6') else False
    return dict(geo=g, order=draw(st.integers(0, MAX[g])), full=full,
                seed=draw(st.integers(0, 10 ** 6)), n=draw(st.integers(5, 30)))


def run_custom(case):
    """User defined points and weights on given bounds are moved to the reference cell."""
    g, n = case['geo'], case['n']
    dim = int(g[0])
    a, b = case['bounds']
    rs = np.random.RandomState(case['seed'])
    x, w = gen.ref_quad(g, 2 * n)
    order = 2 * n
    if case['how'] == 'sym':
        x, w = np.polynomial.legendre.leggauss(case['n'])
        k = x >= -1e-14
        data = np.c_[np.where(np.abs(x[k]) < 1e-14, 0.0, x[k]), w[k]]
        order = 2 * case['n'] - 1
        qp = QuadraturePoints(data, bounds=(-1.0, 1.0), symmetric=True)
        c, w = qp.coors, qp.weights
        check(len(c) == case['n'], 'symmetric rule: number of points')
        g = '1_2'
        dim = 1
    elif case['how'] == 'bounds':
        y = a + (b - a) * x
        f = case['fix']
        wy = w * (b - a) ** dim / f
        y0, wy0 = y.copy(), wy.copy()
        data = np.c_[y, wy]
        if case['data']:
            qp = QuadraturePoints(data, bounds=(a, b), weight_fix=f, tp_fix=VOL[g])
            c, w = qp.coors, qp.weights
            check(abs(qp.volume - VOL[g]) < 1e-12, 'volume')
            qp = QuadraturePoints(data, bounds=(a, b), weight_fix=f, tp_fix=VOL[g])
            check(np.array_equal(qp.coors, c) and np.array_equal(qp.weights, w),
                  'second rule from the same data differs')
        else:
            kw = dict(coors=y, weights=wy, bounds=(a, b), weight_fix=f, tp_fix=VOL[g],
                      order='custom')
            ii = Integral('i', **kw)
            c, w = ii.get_qp(g)
            c, w = c.copy(), w.copy()
            for it, gg in [(ii, g), (ii, '2_4' if g == '2_3' else '2_3'), (Integral('j', **kw), g)]:
                c1, w1 = it.get_qp(gg)
                close(c1, c, 1e-14, 1e-14, 'points in a second request')
                close(w1, w, 1e-14, 1e-14, 'weights in a second request')
        check(np.array_equal(y, y0) and np.array_equal(wy, wy0)
              and np.array_equal(data, np.c_[y0, wy0]), 'the given rule was modified')
    else:
        vals = {'i1': Struct(name='i1', vals=x.tolist(), weights=w.tolist()),
                'i2': Struct(name='i2', order=n),
                'i3': Struct(name='i3', order=n, full_order=True)}
        ii = Integrals.from_conf(vals)
        c, w = ii['i1'].get_qp(g)
        check(np.array_equal(c, x) and np.array_equal(w, gen.ref_quad(g, 2 * n)[1]),
              'custom points and weights')
        for nm, full in (('i2', False), ('i3', True)):
            c1, w1 = ii[nm].get_qp(g)
            check_rule(g, c1, w1, n, full, exponents(g, n, full, rs, 10), nm)
    check_rule(g, np.asarray(c), np.asarray(w), order, True,
               [e for e in exponents(g, order, True, rs, 10) if sum(e) <= order],
               case['how'])
    return {'classes': [g, case['how']]}


@st.composite
def s_custom(draw, item=None):
    a = draw(st.sampled_from([-1.0, 0.0, 2.0, -3.5]))
    return dict(geo=draw(st.sampled_from(sorted(VOL))), n=draw(st.integers(1, 5)),
                bounds=[a, a + draw(st.sampled_from([1.0, 2.0, 0.3]))],
                how=draw(st.sampled_from(['bounds', 'bounds', 'sym', 'conf'])),
                fix=draw(st.sampled_from([1.0, 2.0, 0.25])), data=draw(st.booleans()),
                seed=draw(st.integers(0, 10 ** 6)))


def run_history(case):
    """Interleaved requests always return a rule of at least the requested order."""
    ii = Integrals([Integral('i', order=case['orders'][0]),
                    Integral('iaux', order=case['orders'][1])])
    rs = np.random.RandomState(case['seed'])
    orders = {'i': case['orders'][0], 'iaux': case['orders'][1]}
    objs = {}
    for what, order, g, how in case['ops']:
        if what == 'named':
            name = 'i' if how else 'iaux'
            it = ii.get(name)
            o = orders[name]
        else:
            o = order
            it = ii.get(str(order) if how else order)
            check(objs.setdefault(order, it) is it, 'another integral for the same order')
            check(it.order == order, 'order of the integral')
        o = min(o, MAX[g])
        if it.order > MAX[g]:
            continue
        c, w = it.get_qp(g)
        check_rule(g, np.array(c), np.array(w), o, False, exponents(g, o, False, rs, 6), what)
    for bad in ('x', 'i_no', 1j):
        try:
            ii.get(bad)
        except Exception:
            continue
        check(False, 'reference %r accepted', bad)
    for g in ('1_2', '2_3'):
        for o in range(0, MAX[g] if g == '1_2' else 19):
            check(get_actual_order(g, o) >= o, 'actual order')
    return {'nontrivial': len(case['ops']) > 2, 'classes': ['ops%d' % len(case['ops'])]}


@st.composite
def s_history(draw, item=None):
    op = st.tuples(st.sampled_from(['named', 'num']), st.integers(0, 10),
                   st.sampled_from(sorted(VOL)), st.booleans())
    return dict(orders=[draw(st.integers(0, 8)), draw(st.integers(0, 8))],
                ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=8))],
                seed=draw(st.integers(0, 10 ** 6)))


def all_rules(g):
    out = []
    for full in ([False, True] if g in ('2_4', '3_8', '3_6') else [False]):
        for o in range(MAX[g] + 1):
            n = {1: 48, 2: 150, 3: 150}[int(g[0])]
            out.append(dict(geo=g, order=o, full=full, seed=7 * o, n=n))
    return out


SUBS = [
    Sub('rules', s_rule, run_rule, n=40, items=sorted(VOL),
        examples=sum([all_rules(g) for g in sorted(VOL)], [])),
    Sub('custom', s_custom, run_custom, n=200),
    Sub('history', s_history, run_history, n=100),
]
