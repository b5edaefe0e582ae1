"""K01: material parameters have the values of their definition everywhere."""
import numpy as np
import hypothesis.strategies as st

import gen
import pb
import tm
from fe import facet_region, pick
from harness import Sub, check, close
from g01 import own_boundary

from sfepy.discrete import Function, Integral, Integrals, Material, Materials
from sfepy.discrete.equations import Equations
from sfepy.discrete.common.fields import setup_extra_data
from sfepy.solvers.ts import TimeStepper

PROP = 'K01'
RULE = ('Cases: 1-3 materials (constants, per-region values in overlapping regions, arrays of 0-3 '
        'dimensions, functions of coordinates, time and extra arguments; time-dependent or '
        'stationary; special parameters) used by 2-6 terms in random cell and facet regions '
        'with built-in, full order and custom integrals, and 2-8 operations (update in a mode at a '
        'time, reset, new function, new arguments, other equations).  Oracle: the definition evaluated at own '
        'quadrature points at the time of the last due update.  Non-trivial: two terms with different '
        'regions or integrals and two updates.')
ASSUMPTIONS = ['cells in no region of a per-region definition have zero values; in several '
               'regions, the last one is used',
               'a stationary material is not updated, not even in new regions, after the first update '
               'unless forced']

REGS = ['Omega', 'R1', 'R2', 'Gamma', 'Face']
INTS = ['i1', 'i2', 'i3', 'ic1', 'ic2', 'if2']


def strategy(item):
    n = st.integers
    par = st.tuples(n(0, 7), n(0, 999))
    mat = st.fixed_dictionaries(dict(kind=st.sampled_from(['const', 'reg', 'fun', 'fun', 'fun']),
                                     stat=n(0, 2), pars=st.lists(par, min_size=1, max_size=3),
                                     cplx=n(0, 4), special=n(0, 1), named=n(0, 1)))
    term = st.tuples(n(0, 2), n(0, 2), st.sampled_from(REGS + ['R1', 'R2']), st.sampled_from(INTS),
                     n(0, 1))
    op = st.one_of(st.tuples(st.just('update'), st.sampled_from(['normal', 'normal', 'update', 'force']),
                             n(0, 9), n(0, 1)),
                   st.tuples(st.just('update'), st.just('normal'), n(0, 9), n(0, 1)),
                   st.tuples(st.just('reset'), n(0, 3)), st.tuples(st.just('fun'), n(0, 2), n(0, 999)),
                   st.tuples(st.just('args'), n(0, 2), n(1, 9)), st.tuples(st.just('other'),))
    return st.fixed_dictionaries(dict(
        mesh=gen.cases([item], max_cells=2), mats=st.lists(mat, min_size=1, max_size=3),
        terms=st.lists(term, min_size=2, max_size=6), seed=n(0, 10 ** 6),
        ops=st.lists(op, min_size=2, max_size=8)))


class Par:
    """One parameter of a material: its definition and own evaluation."""

    def __init__(self, mat, i, par, dim):
        rs = np.random.RandomState(par[1])
        self.name = 'p%d' % i
        S = dim * (dim + 1) // 2
        self.shape = [(), (1,), (dim,), (1, 1), (dim, 1), (S, S), (1, dim), (dim, dim)][par[0]]
        cp = mat['cplx'] == 0

        def rnd(sh):
            v = rs.uniform(-1, 1, sh)
            return v + 1j * rs.uniform(-1, 1, sh) if cp else v
        self.full = (1,) * (2 - len(self.shape)) + self.shape
        self.a = rnd(self.shape)
        if mat['kind'] == 'fun':
            self.k = rs.uniform(-2, 2, dim)
            self.a = rnd(self.full)
            self.b = rnd(self.full)
            self.b = np.where(self.a == 0, 1.0, self.b)
        self.ints = bool(rs.randint(4) == 0) and not cp
        if self.ints:
            self.a = np.round(self.a * 5)
        regs = [r for r in ['R1', 'R2', 'Omega'] if rs.rand() < 0.6] or ['R2']
        self.regs = {str(r): rnd(self.shape) for r in rs.permutation(regs)}

    def python(self, v):
        v = np.asarray(v)
        if self.ints:
            v = np.round(v.real * 5).astype(int)
        return v.tolist() if len(self.shape) != 1 else v

    def fun(self, x, t, extra):
        return self.a + self.b * np.sin(x @ self.k + t + extra)[..., None, None]


def matfun(pars, special, log):
    def fun(ts, coors, mode=None, extra=0.0, **kwargs):
        if mode == 'qp':
            log.append(1)
            return {p.name: p.fun(coors, ts.time, extra) for p in pars}
        if mode == 'special' and special:
            return {'s': ('flag', ts.time)}
    return fun


def run(case):
    mesh, r = gen.mesh(case['mesh'])
    g = r['descs'][0]
    dim = int(g[0])
    n = len(r['conns'][0])
    m1, m2 = pick(case['seed'], n, 0.6), pick(case['seed'] + 1, n, 0.5)
    conf = {'regions': {'Omega': 'all', 'R1': 'cells by s1', 'R2': 'cells by s2'},
            'functions': {'s1': (lambda coors, domain=None: np.where(m1)[0],),
                          's2': (lambda coors, domain=None: np.where(m2)[0],)},
            'fields': {'f': ('real', 1, 'Omega', 1)}, 'variables': {'u': ('unknown field', 'f')},
            'materials': {}, 'integrals': {}, 'equations': {}, 'solvers': {}, 'ebcs': {}}
    prob = pb.problem(None, conf, mesh=mesh)
    dom = prob.domain
    conn = np.asarray(dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
    bnd = own_boundary(dom, g, conn, np.ones(n, bool))
    bnd1 = own_boundary(dom, g, conn, m1)
    if dim > 1:
        k = dom.cmesh.get_conn(dim - 1, 0)
        off, ind = np.asarray(k.offsets), np.asarray(k.indices)
        keys = [frozenset(ind[off[i]:off[i + 1]].astype(int).tolist()) for i in range(len(off) - 1)]
    else:
        keys = [frozenset([i]) for i in range(len(r['coors']))]
    for name, b, sd, parent in (('Gamma', bnd, 2, None), ('Face', bnd1, 3, 'R1')):
        on = [i for i, k in enumerate(keys) if k in b]
        pm = pick(case['seed'] + sd, len(on), 0.6)
        facet_region(dom, name, [on[i] for i in np.where(pm)[0]], parent=parent)
    rs = np.random.RandomState(case['seed'])
    ints = {'i%d' % k: Integral('i%d' % k, order=k) for k in (1, 2, 3)}
    ints['if2'] = Integral('if2', order=2, full_order=True)
    qx, qw = (np.asarray(a) for a in Integral('a', order=2).get_qp(g))
    for k in (1, 2):
        p = rs.permutation(len(qw))[:len(qw) - (k - 1) * min(1, len(qw) - 1)]
        ints['ic%d' % k] = Integral('ic%d' % k, order='custom', coors=qx[p].copy(), weights=qw[p].copy())
    field = prob.fields['f']
    masks = {'Omega': np.ones(n, bool), 'R1': m1, 'R2': m2}
    geos = {}

    def geo(reg, it):
        if (reg, it) not in geos:
            if reg in masks:
                geos[reg, it] = tm.cell_geo(g, conn, r['coors'], np.where(masks[reg])[0], ints[it])
            else:
                geos[reg, it] = facet_points(dom.regions[reg], g, r['coors'], conn, ints[it], keys)
        return geos[reg, it]

    # Materials.
    mats, pars, logs, state = [], [], [], []
    for i, mc in enumerate(case['mats']):
        ps = [Par(mc, j, p, dim) for j, p in enumerate(mc['pars'])]
        kind = 'stationary' if mc['stat'] == 0 else 'time-dependent'
        log = []
        sp = {'.s': 'flag%d' % i} if mc['special'] and mc['kind'] == 'const' else {}
        if mc['kind'] == 'fun':
            mt = Material('m%d' % i, kind=kind, function=Function('f%d' % i, matfun(ps, mc['special'], log)))
        elif mc['kind'] == 'reg':
            mt = Material('m%d' % i, kind=kind, values={
                p.name: {k: p.python(v) for k, v in p.regs.items()} for p in ps})
        elif mc['named'] and not sp:
            mt = Material('m%d' % i, kind=kind, **{p.name: p.python(p.a) for p in ps})
        else:
            mt = Material('m%d' % i, kind=kind, values=dict(
                {p.name: p.python(p.a) for p in ps}, **sp),
                flags={'special_constant': True} if mc['named'] and not sp else None)
        mats.append(mt)
        pars.append(ps)
        logs.append(log)
        # Time and arguments of the values of each (region, integral).
        state.append({'datas': {}, 'extra': 0.0, 'special': None})

    def equations(terms):
        eqs, used = {}, []
        for j, (im, ip, reg, it, mode) in enumerate(terms):
            im %= len(mats)
            ip %= len(pars[im])
            if reg in ('Gamma', 'Face') and (it in ('ic1', 'ic2') or dim == 1 and it == 'if2'):
                it = 'i2'
            eqs['e%d' % j] = 'ev_integrate_mat.%s.%s(m%d.p%d, u)' % (it, reg, im, ip)
            used.append((im, ip, reg, it, mode))
        out = Equations.from_conf(eqs, prob.get_variables() or variables, dom.regions,
                                  Materials(mats), Integrals(list(ints.values())), user={},
                                  verbose=False)
        setup_extra_data(out.conn_info)
        return out, used

    from sfepy.discrete import FieldVariable, Variables
    variables = Variables([FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')])
    variables['u'].set_constant(1.0)
    half = max(1, len(case['terms']) // 2)
    sets = [equations(case['terms']), equations(case['terms'][:half]), equations(case['terms'][half:] or
                                                                                   case['terms'])]
    eqs, used = sets[0]
    ts = TimeStepper(0.0, 10.0, n_step=11)
    ts.step, ts.time = 0, 0.0

    def define(im, ip, reg, it, when):
        """Own values (C, Q, r, c)."""
        p, gq = pars[im][ip], geo(reg, it)
        kind = case['mats'][im]['kind']
        sh = gq.x.shape[:2] + p.full
        if kind == 'fun':
            t, extra, pp = when
            return pp[ip].fun(gq.x, t, extra)
        if kind == 'const':
            return np.broadcast_to(np.asarray(p.python(p.a)), sh)
        out = np.zeros(sh, dtype=np.result_type(np.asarray(p.a).dtype, float))
        for rn, v in p.regs.items():
            out[masks[rn][gq.cells]] = np.asarray(p.python(v))
        return out

    nup = 0
    setno = 0
    for op in [('update', 'normal', 1, 0)] * (case['seed'] % 8 > 0) + list(case['ops']):
        what = op[0]
        if what == 'update':
            _, mode, t, via = op
            ts.time = float(t)
            eqkeys = {}
            for im, ip, reg, it, _m in used:
                eqkeys.setdefault(im, set()).add((reg, it))
            if via:
                eqs.time_update_materials(ts, mode=mode, problem=prob, verbose=False)
            else:
                eqs.materials.time_update(ts, eqs, mode=mode, problem=prob, verbose=False)
            nup += 1
            for im, ks in eqkeys.items():
                s, mc = state[im], case['mats'][im]
                if mode == 'force':
                    s['datas'], s['special'] = {}, None
                elif s['datas'] and mode == 'normal':
                    if mc['stat'] == 0:
                        continue
                    if mc['kind'] == 'fun':
                        s['datas'], s['special'] = {}, None
                for k in ks:
                    s['datas'].setdefault(k, (ts.time, s['extra'], pars[im]))
                if s['special'] is None:
                    s['special'] = ts.time
        elif what == 'reset':
            which = range(len(mats)) if op[1] == 3 else [op[1] % len(mats)]
            for im in which:
                mats[im].reset()
                state[im].update(datas={}, extra=0.0, special=None)
        elif what == 'fun':
            im = op[1] % len(mats)
            if case['mats'][im]['kind'] != 'fun':
                continue
            ps = [Par(case['mats'][im], j, (p[0], p[1] + op[2] + 1), dim)
                  for j, p in enumerate(case['mats'][im]['pars'])]
            pars[im] = ps
            mats[im].set_function(Function('g', matfun(ps, case['mats'][im]['special'], logs[im])))
            state[im].update(datas={}, extra=0.0, special=None)
        elif what == 'args':
            im = op[1] % len(mats)
            if case['mats'][im]['kind'] == 'fun':
                mats[im].set_extra_args(extra=op[2] * 0.7)
                state[im]['extra'] = op[2] * 0.7
        elif what == 'other':
            setno = (setno + 1) % len(sets)
            eqs, used = sets[setno]
        for j, (im, ip, reg, it, mode) in enumerate(used):
            s, mc, p = state[im], case['mats'][im], pars[im][ip]
            if (reg, it) not in s['datas']:
                continue
            ref = define(im, ip, reg, it, s['datas'][reg, it])
            gq = geo(reg, it)
            term = eqs['e%d' % j].terms[0]
            dat = mats[im].get_data(term.get_qp_key(), p.name)
            key = mc['kind'] + ('-custom' if it[1] in 'cf' else '')
            sca = 1 + np.abs(ref).max()
            check(dat.ndim == 4 and dat.shape[1:] == ref.shape[1:]
                  and dat.shape[0] in (1, ref.shape[0]),
                  'shape of %s data %s, expected %s', mc['kind'], dat.shape, ref.shape,
                  key='shape-' + key)
            close(np.broadcast_to(dat, ref.shape), ref, 1e-10, 1e-11 * sca,
                  'values of m%d.p%d (%s) in %s, %s' % (im, ip, mc['kind'], reg, it), key=key)
            st_ = mats[im].get_data(term.get_qp_key(), {'a': p.name})
            close(st_.a, dat, 0, 0, 'data got by a dictionary', key='dict')
            if mode:
                got = np.asarray(term.evaluate(mode='el_eval', standalone=False))
                want = np.einsum('cqij,cq->cij', ref, gq.w)[:, None]
                check(got.shape == want.shape, 'shape of integrals %s, expected %s', got.shape,
                      want.shape)
                close(got, want, 1e-9, 1e-11 * sca * (1 + np.abs(gq.w).sum()),
                      'integral of m%d.p%d (%s) over %s, %s' % (im, ip, mc['kind'], reg, it),
                      key='int-' + key)
        for im, mc in enumerate(case['mats']):
            if state[im]['special'] is None:
                continue
            if mc['kind'] == 'const' and mc['special']:
                check(mats[im].get_data(None, 's') == 'flag%d' % im, 'special constant', key='special')
            elif mc['kind'] == 'fun' and mc['special']:
                check(mats[im].get_data(None, 's') == ('flag', state[im]['special']),
                      'special value of a function %s, expected of time %s',
                      mats[im].get_data(None, 's'), state[im]['special'], key='special')
            elif mc['kind'] == 'const' and mc['named'] and mats[im].flags:
                for p in pars[im]:
                    v = mats[im].get_constant_data(p.name)
                    close(np.asarray(v), np.asarray(p.python(p.a)), 0, 0, 'constant data',
                          key='special')
    return {'nontrivial': nup >= 2 and len({(u[2], u[3]) for u in sets[0][1]}) > 1,
            'classes': [g] + sorted({'mat-' + m['kind'] for m in case['mats']}
                                    | {'reg-' + u[2] for u in sets[0][1]}
                                    | {'int-' + u[3] for u in sets[0][1]}
                                    | {'op-' + o[0] for o in case['ops']})}


def facet_points(reg, g, coors, conn, integral, keys):
    """Own quadrature points of facets: the set of points of each facet, any vertex order."""
    from sfepy.discrete.common.mappings import get_physical_qps
    fi = np.asarray(reg.get_facet_indices())
    pq = get_physical_qps(reg, integral)
    pts = np.asarray(pq.values).reshape(pq.shape)
    facets = gen.facets(g)

    class Out:
        pass
    out = Out()
    out.x, out.cells = np.zeros_like(pts), fi[:, 0].astype(int)
    out.w = np.zeros(pts.shape[:2])
    used = set()
    for i, (c, lf) in enumerate(fi):
        # The facet of the cell containing the points.
        best = None
        for f in facets:
            fs = frozenset(int(v) for v in conn[c][list(f)])
            fx = coors[conn[c][list(f)]]
            if len(f) == 1:
                x, w = fx, np.ones(1)
            else:
                kind = {2: '1_2', 3: '2_3', 4: '2_4'}[len(f)]
                qx, qw = (np.asarray(a) for a in integral.get_qp(kind))
                bf, bg = gen.ref_shape(kind, qx)
                # Any rotation and orientation of the facet vertices.
                x = None
                nv = len(f)
                perms = [np.roll(np.arange(nv)[::s], k) for k in range(nv) for s in (1, -1)]
                for pm in perms:
                    y = bf @ fx[pm]
                    if np.allclose(y, pts[i], rtol=1e-9, atol=1e-10):
                        x = y
                        J = np.einsum('vi,qvj->qij', fx[pm], bg)
                        w = qw * np.sqrt(np.linalg.det(np.einsum('qij,qik->qjk', J, J)))
                        break
                if x is None:
                    continue
            if np.allclose(x, pts[i], rtol=1e-9, atol=1e-10):
                best = x, w, fs
                break
        check(best is not None, 'physical quadrature points of facet %d are not in a facet of cell %d',
              i, c, key='facet-points')
        out.x[i], out.w[i] = best[0], best[1]
        used.add((int(c), best[2]))
    fids = [keys[i] for i in np.asarray(reg.facets)]
    check({u[1] for u in used} == set(fids), 'facets of quadrature points differ from the region',
          key='facet-points')
    check(len(used) == len(fi), 'repeated facets in quadrature points', key='facet-points')
    return out


SUBS = [Sub('update', strategy, run, n=100, items=['1_2', '2_3', '2_4', '3_4', '3_8'])]
