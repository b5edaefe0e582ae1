"""R01: region selectors select exactly the entities they describe."""
import numpy as np
import hypothesis.strategies as st

import gen
from harness import Sub, check, Violation

from sfepy.base.base import Struct
from sfepy.discrete import Functions
from sfepy.discrete.fem import FEDomain
from sfepy.discrete.common.region import Region, are_disjoint

PROP = 'R01'
RULE = ('Cases: random meshes (all cell kinds, permuted, with holes) and lists of region '
        'definitions: random trees of selectors and operators +,-,* on v,e,f,s,c, with and '
        'without parentheses, references and copies of previous regions, final kinds.  '
        'Non-trivial: at least one operator and a region that is neither empty nor everything.')
ASSUMPTIONS = ['a bare reference `r.X` as a whole definition aliases X and is not generated',
               'operators between sub-expressions without parentheses group from the right',
               '`*_only` kinds are used with entities of that dimension']


class Naive:
    """Entities of all dimensions as vertex sets."""

    def __init__(self, dom):
        cm = dom.cmesh
        self.D = D = cm.tdim
        self.dim = cm.dim
        self.coors = np.array(cm.coors)
        self.sets = {0: [frozenset([i]) for i in range(cm.n_coor)]}
        for d in range(1, D + 1):
            cm.setup_connectivity(d, 0)
            c = cm.get_conn(d, 0)
            self.sets[d] = [frozenset(c.indices[c.offsets[i]:c.offsets[i + 1]].tolist())
                            for i in range(len(c.offsets) - 1)]
        self.all = {d: frozenset(range(len(s))) for d, s in self.sets.items()}
        self.vgroups = np.array(cm.vertex_groups)
        self.cgroups = np.array(cm.cell_groups)
        nc = {}
        for c in self.sets[D]:
            for i, f in enumerate(self.sets[D - 1]):
                if f <= c:
                    nc[i] = nc.get(i, 0) + 1
        self.surface = frozenset(i for i, n in nc.items() if n == 1)

    def down(self, ids, d, e):
        """Entities of dim e <= d incident to (contained in) entities ids of dim d."""
        return frozenset(j for j, s in enumerate(self.sets[e])
                         if any(s <= self.sets[d][i] for i in ids))

    def up(self, ids, d, e):
        """Entities of dim e > d all of whose d-entities are in ids."""
        out = []
        for j, s in enumerate(self.sets[e]):
            sub = [i for i, t in enumerate(self.sets[d]) if t <= s]
            if all(i in ids for i in sub):
                out.append(j)
        return frozenset(out) if ids else frozenset()


KIND_DIM = {'vertex': 0, 'edge': 1, 'face': 2}


def kdim(kind, D):
    k = kind.replace('_only', '')
    if k == 'facet':
        return D - 1
    if k == 'cell':
        return D
    return KIND_DIM[k]


class EmptyAccess(Exception):
    """Other entities of an empty intermediate region are not defined (it is rejected)."""


class MReg:
    """Model region: a base set of one dimension, seen through a kind."""

    def __init__(self, nv, kind, base_dim, ids):
        self.nv, self.kind = nv, kind
        self.ent = {base_dim: frozenset(ids)}
        self.final = False

    def copy_kind(self, kind):
        """Final region of the given kind."""
        D = self.nv.D
        kd = kdim(kind, D)
        b = max(self.ent)
        r = MReg(self.nv, kind, b, self.ent[b])
        r.final = self.final
        r = MReg(self.nv, kind, kd, r.get(kd) if b <= kd else
                 self.nv.down(self.ent[b], b, kd))
        if b > kd and not self.ent[b] and not self.final:
            raise EmptyAccess
        r.final = True
        return r

    def get(self, d):
        nv, D = self.nv, self.nv.D
        kd = kdim(self.kind, D)
        if d > kd or ('_only' in self.kind and d != kd):
            return frozenset()
        if d in self.ent:
            return self.ent[d]
        b = max(self.ent)
        if not self.ent[b] and not self.final and not (b == 0 and d == kd):
            raise EmptyAccess
        if d == 0:
            return nv.down(self.ent[b], b, 0) if self.ent[b] else frozenset()
        if d == kd:
            # All vertices belong to the region.
            return nv.up(self.get(0), 0, d)
        if d < b:
            return nv.down(self.ent[b], b, d)
        # Between the base and the kind entities: incident to the higher ones.
        for e in range(kd, d, -1):
            ids = self.get(e)
            if ids:
                return nv.down(ids, e, d)
        return nv.up(self.ent[b], b, d)


OPDIM = {'v': 0, 'e': 1, 'f': 2}


def opdim(o, D):
    return D if o == 'c' else (D - 1 if o == 's' else OPDIM[o])


class Builder:
    def __init__(self, dom, nv, case):
        self.nv, self.case, self.dom = nv, case, dom
        self.regs = {}
        self.funs = {}
        self.nops = 0

    def leaf(self, lf):
        """Return (text, model region) or None when unusable."""
        nv = self.nv
        D, kind = nv.D, lf[0]
        co = nv.coors
        if kind == 'all':
            return 'all', MReg(nv, 'cell', 0, nv.all[0])
        if kind == 'surface':
            return 'vertices of surface', MReg(nv, 'facet', D - 1, nv.surface)
        if kind == 'vgroup':
            ids = np.where(nv.vgroups == lf[1])[0]
            return 'vertices of group %d' % lf[1], MReg(nv, 'cell', 0, ids.tolist())
        if kind == 'set':
            name = self.setnames[lf[1] % len(self.setnames)]
            return 'vertices of set %s' % name, MReg(nv, 'cell', 0, self.sets[name])
        if kind == 'vin':
            txt, mask = self.relation(lf[1])
            return 'vertices in %s' % txt, MReg(nv, 'cell', 0, np.where(mask)[0].tolist())
        if kind == 'vby':
            ids = [i % len(co) for i in lf[1]]
            name = 'fun_v%d' % len(self.funs)
            arr = np.unique(np.array(ids, dtype=int))

            def fun(coors, domain=None):
                check(coors.shape == co.shape and (coors == co).all()
                      and domain is self.dom, 'arguments of a vertex function')
                return arr
            self.funs[name] = fun
            return 'vertices by %s' % name, MReg(nv, 'cell', 0, arr.tolist())
        if kind == 'cby':
            cent = np.array([co[list(s)].mean(0) for s in nv.sets[D]])
            arr = np.unique([i % len(cent) for i in lf[1]]).astype(int)
            name = 'fun_c%d' % len(self.funs)

            def cfun(coors, domain=None):
                check(coors.shape == cent.shape and np.abs(coors - cent).max() < 1e-12,
                      'arguments of a cell function')
                return arr
            self.funs[name] = cfun
            return 'cells by %s' % name, MReg(nv, 'cell', D, arr.tolist())
        if kind == 'vid':
            ids = sorted(set(i % len(co) for i in lf[1]))
            return 'vertex ' + (', ' if lf[1][0] % 2 else ',').join(map(str, ids)), \
                MReg(nv, 'cell', 0, ids)
        if kind == 'cid':
            ids = sorted(set(i % len(nv.all[D]) for i in lf[1]))
            return 'cell ' + ', '.join(map(str, ids)), MReg(nv, 'cell', D, ids)
        if kind == 'cgroup':
            g = nv.cgroups[lf[1] % len(nv.cgroups)]
            return 'cells of group %d' % g, \
                MReg(nv, 'cell', D, np.where(nv.cgroups == g)[0].tolist())
        if kind == 'ref':
            names = sorted(self.regs)
            if not names:
                return None
            n = names[lf[1] % len(names)]
            return 'r.%s' % n, self.regs[n]
        raise ValueError(kind)

    def relation(self, rel):
        """rel: list of (axis, op, quantile, joiner, flip)."""
        co = self.nv.coors
        txts, mask = None, None
        for ax, op, q, jn, flip in rel:
            ax = ax % co.shape[1]
            vals = np.unique(np.round(co[:, ax], 6))
            k = min(int(q * len(vals)), len(vals) - 1)
            if op in ('==', '!='):
                v = float('%.17g' % co[:, ax][min(int(q * len(co)), len(co) - 1)])
                vt = '%.17f' % v
                v = float(vt)
            else:
                v = (vals[k] + vals[min(k + 1, len(vals) - 1)]) / 2 + 1e-7
                vt = ['%.9f', '%.12e'][flip] % v
                v = float(vt)
            x = co[:, ax]
            if flip and op in ('<', '>', '<=', '>='):
                txt = '(%s %s %s)' % (vt, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op],
                                      'xyz'[ax])
            else:
                txt = '(%s %s %s)' % ('xyz'[ax], op, vt)
            m = {'<': x < v, '>': x > v, '<=': x <= v, '>=': x >= v, '==': x == v,
                 '!=': x != v}[op]
            if mask is None:
                txts, mask = txt, m
            else:
                txts = '(%s %s %s)' % (txts, jn, txt)
                mask = (mask & m) if jn == '&' else (mask | m)
        return txts, mask

    def expr(self, tree):
        """tree: ['leaf', ...] or ['op', items [[op, paren, subtree], ...]]."""
        if tree[0] != 'op':
            return self.leaf(tree)
        first = self.expr(tree[1])
        if first is None:
            return None
        parts = [first]
        ops = []
        for op, typ, paren, sub in tree[2]:
            r = self.expr(sub)
            if r is None:
                continue
            if sub[0] == 'op' and len(sub[2]):
                # Sub-expressions are always in parentheses here.
                r = ('(%s)' % r[0], r[1])
            elif paren:
                r = ('( %s )' % r[0], r[1])
            parts.append(r)
            ops.append((op, typ))
        if tree[1][0] == 'op' and tree[1][2]:
            parts[0] = ('(%s)' % parts[0][0], parts[0][1])
        # Group from the right; adapt operators to what the left operand allows.
        txt, reg = parts[-1]
        for k in range(len(ops) - 1, -1, -1):
            op, typ = ops[k]
            lt, lreg = parts[k]
            D = self.nv.D
            if typ == 'f' and D < 3 or typ == 'e' and D < 2:
                typ = 'v'
            d = opdim(typ, D)
            kd = kdim(lreg.kind, D)
            if d > kd:
                typ, d = 'v', 0
            if '_only' in lreg.kind and d != kd:
                if kd == D:
                    typ = 'c'
                elif kd == D - 1:
                    typ = 's'
                else:
                    typ = 'vef'[kd]
                d = kd
            a, b = lreg.get(d), reg.get(d)
            ids = {'+': a | b, '-': a - b, '*': a & b}[op]
            txt = '%s %s%s %s' % (lt, op, typ, txt)
            reg = MReg(self.nv, lreg.kind, d, ids)
            self.nops += 1
        return txt, reg


def verify(reg, mreg, nv, kind, text):
    D = nv.D
    for d in range(D + 1):
        exp = sorted(mreg.get(d))
        got = np.asarray(reg.get_entities(d)).tolist()
        check(got == exp, 'region "%s" of kind %s: entities of dimension %d: %s, expected %s',
              text, kind, d, got, exp)
    check(np.asarray(reg.vertices).tolist() == sorted(mreg.get(0)), 'vertices of %s', text)
    check(np.asarray(reg.cells).tolist() == sorted(mreg.get(D)), 'cells of %s', text)
    check(np.asarray(reg.facets).tolist() == sorted(mreg.get(D - 1)), 'facets of %s', text)
    sh = reg.shape
    check((sh.n_vertex, sh.n_cell, sh.n_facet) ==
          (len(mreg.get(0)), len(mreg.get(D)), len(mreg.get(D - 1))), 'shape of %s', text)
    if D > 1:
        check(np.asarray(reg.edges).tolist() == sorted(mreg.get(1)) and
              sh.n_edge == len(mreg.get(1)), 'edges of %s', text)
    if D > 2:
        check(np.asarray(reg.faces).tolist() == sorted(mreg.get(2)) and
              sh.n_face == len(mreg.get(2)), 'faces of %s', text)
    check(reg.get_n_cells() == len(mreg.get(D))
          and reg.get_n_cells(is_surface=True) == len(mreg.get(D - 1))
          and bool(reg.has_cells()) == bool(mreg.get(D)), 'cell counts of %s', text)


def run(case):
    mesh, raw = gen.mesh(case['mesh'])
    sets = {}
    nvert = len(raw['coors'])
    for i, ids in enumerate(case['sets']):
        name = ['set0', '12', 'a_b'][i]
        sets[name] = sorted(set(j % nvert for j in ids))
        mesh.nodal_bcs[name] = np.array(sets[name], dtype=np.int32)
    dom = FEDomain('d', mesh)
    nv = Naive(dom)
    D = nv.D
    bld = Builder(dom, nv, case)
    bld.sets, bld.setnames = sets, sorted(sets)
    defs = []
    for i, (tree, kind, cp) in enumerate(case['regions']):
        if cp and bld.regs:
            names = sorted(bld.regs)
            src = names[cp % len(names)]
            text, m = 'copy r.%s' % src, bld.regs[src]
            if '_only' in m.kind or not m.get(kdim(m.kind, D)):
                continue
            cpk = True
        else:
            try:
                e = bld.expr(tree)
            except EmptyAccess:
                continue
            if e is None or e[0].startswith('r.') and ' ' not in e[0]:
                continue
            text, m = e
            cpk = False
        D_only = kind.endswith('_only')
        k0 = kind.replace('_only', '')
        if (k0 == 'face' and D < 3) or (k0 == 'edge' and D < 2):
            kind = 'vertex'
            k0 = 'vertex'
            D_only = False
        kd = kdim(kind, D)
        mk = kdim(m.kind, D)
        if kd > mk or '_only' in m.kind:
            kind = m.kind
            if m.kind == 'cell' and not cpk:
                pass
        elif D_only and (max(m.ent) < kd or min(m.ent) != kd):
            kind = k0
        try:
            final = m.copy_kind(kind)
        except EmptyAccess:
            continue
        name = ['A', 'B-1', 'C_x', 'Reg.4', 'e', 'F2', 'Gamma', 'r7'][i]
        defs.append((name, text, kind, final))
        bld.regs[name] = final
    funs = Functions.from_conf({})
    from sfepy.discrete import Function
    for n, f in bld.funs.items():
        funs.append(Function(n, f))
    some = False
    by_name = {}
    if case['mode'] == 0:
        for name, text, kind, m in defs:
            empty = not m.get(kdim(kind, D))
            try:
                reg = dom.create_region(name, text, kind=kind, functions=funs,
                                        allow_empty=bool(case['allow_empty']))
            except ValueError as exc:
                if empty and not case['allow_empty'] and 'no entities' in str(exc):
                    # Later regions may refer to it.
                    reg = dom.create_region(name, text, kind=kind, functions=funs,
                                            allow_empty=True)
                else:
                    raise
            else:
                check(not empty or case['allow_empty'],
                      'empty region %s (%s, %s) accepted', name, text, kind)
            check(bool(reg.is_empty) == empty, 'is_empty of %s: %s', text, reg.is_empty)
            by_name[name] = reg
        for name, text, kind, m in defs:
            check(by_name[name].name == name, 'name')
            verify(by_name[name], m, nv, kind, text)
    else:
        # All at once, in a random order: dependencies are sorted.
        order = np.random.RandomState(case['order']).permutation(len(defs))
        from sfepy.base.conf import transform_regions
        conf = {}
        for i in order:
            name, text, kind, _ = defs[i]
            conf[name] = (text, kind) if kind != 'cell' or case['order'] % 2 else text
        dom.create_regions(transform_regions(conf), functions=funs, allow_empty=True)
        for name, text, kind, m in defs:
            by_name[name] = dom.regions[name]
            verify(by_name[name], m, nv, kind, text)
    # Derived quantities.
    regs = [(n, by_name[n], m, k) for n, _, k, m in defs if m.get(kdim(k, D))]
    for n, reg, m, k in regs:
        some |= 0 < len(m.get(kdim(k, D))) < len(nv.all[kdim(k, D)])
        if '_only' not in k:
            v = sorted(m.get(0))
            chf = np.zeros(nvert)
            chf[v] = 1
            check((reg.get_charfun() == chf).all(), 'characteristic function')
            chf[v] = np.array(v) + 1
            check((reg.get_charfun(val_by_id=True) == chf).all(), 'charfun by id')
            c = sorted(m.get(D))
            chf = np.zeros(len(nv.all[D]))
            chf[c] = 1
            check((reg.get_charfun(by_cell=True) == chf).all(), 'cell charfun')
            chf[c] = np.array(c) + 1
            check((reg.get_charfun(by_cell=True, val_by_id=True) == chf).all(),
                  'cell charfun by id')
            for n2, reg2, m2, k2 in regs:
                if '_only' not in k2:
                    check(are_disjoint(reg, reg2) == (not (m.get(0) & m2.get(0))),
                          'are_disjoint')
            if D > 1 and kdim(k, D) > 0:
                g = reg.get_edge_graph().toarray()
                exp = {}
                for e in m.get(1):
                    a, b = sorted(nv.sets[1][e])
                    exp[a, b] = exp[b, a] = e + 1
                got = {(int(i), int(j)): int(g[i, j]) for i, j in zip(*g.nonzero())}
                check(got == exp, 'edge graph')
            cpr = reg.copy()
            for d in range(D + 1):
                check(sorted(np.asarray(cpr.get_entities(d)).tolist()) == sorted(m.get(d)),
                      'copy of a region')
        r = dom.create_region('any%d' % len(by_name) + n, 'vertex in r.%s' % n, 'vertex') \
            if ('_only' not in k or k == 'vertex_only') and m.get(0) else None
        if r is not None:
            check(len(r.vertices) == 1 and int(r.vertices[0]) in m.get(0), 'vertex in region')
    for _, text, _, _ in defs[:0]:
        pass
    # Regions from given entities.
    for bd, mk, ids in ((0, Region.from_vertices, case['ids']),
                        (D - 1, Region.from_facets, case['ids']),
                        (D, Region.from_cells, case['ids'])):
        ids = np.unique([i % len(nv.all[bd]) for i in ids]).astype(np.uint32)
        kind = {0: 'vertex' if case['order'] % 2 else 'cell', D - 1: 'facet', D: 'cell'}[bd] \
            if mk is not Region.from_facets else 'facet'
        reg = mk(ids, dom, name='given', kind=kind)
        if kind == 'cell' and bd == 0 and not nv.up(frozenset(ids.tolist()), 0, D):
            continue
        m = MReg(nv, kind, bd, ids.tolist())
        for d in range(D, -1, -1):
            got = np.asarray(reg.get_entities(d)).tolist()
            check(got == sorted(m.get(d)), 'region from given entities (dim %d): %s, %s',
                  bd, got, sorted(m.get(d)))
    return {'nontrivial': bool(bld.nops and some),
            'classes': ['D%d' % D, 'ops%d' % min(bld.nops, 6), 'mode%d' % case['mode']] +
            sorted(set('kind_' + d[2] for d in defs))}


def run_bad(case):
    """Circular and missing dependencies are rejected, valid ones accepted."""
    dom, raw = gen.domain({'kind': '2_3', 'shape': [2, 2], 'seed': 3})
    n = case['n']
    conf = {}
    edges = set((a % n, b % n) for a, b in case['deps'])
    g = {i: sorted(b for a, b in edges if a == i) for i in range(n)}
    for i in range(n):
        sel = 'all'
        for b in g[i]:
            sel += ' *v r.R%d' % b
        if case['parent'] and g[i]:
            conf['R%d' % i] = (sel, 'cell', 'R%d' % g[i][0])
        else:
            conf['R%d' % i] = sel
    missing = case['missing']
    if missing == 1:
        conf['Rm'] = 'all -v r.nonexistent'
    elif missing == 2:
        conf['Rm'] = ('all', 'cell', 'nonexistent')
    # Kahn's algorithm.
    done = set()
    while True:
        new = [i for i in g if i not in done and all(b in done for b in g[i])]
        if not new:
            break
        done |= set(new)
    ok = len(done) == n and not missing
    from sfepy.base.conf import transform_regions
    defs = transform_regions(conf)
    try:
        dom.create_regions(defs)
    except (ValueError, IndexError, KeyError):
        check(not ok, 'acyclic region definitions rejected: %s', conf)
    else:
        check(ok, 'bad region definitions accepted: %s', conf)
        check(sorted(r.name for r in dom.regions) == sorted(conf), 'regions created')
        order = [r.name for r in dom.regions]
        for i in range(n):
            for b in g[i]:
                check(order.index('R%d' % b) < order.index('R%d' % i), 'order of creation')
    if ok:
        try:
            dom.create_region('X', 'vertex 0 +v r.nope')
        except ValueError:
            pass
        else:
            raise Violation('reference to a missing region accepted')
    return {'nontrivial': bool(edges), 'classes': ['ok%d' % ok]}


def leaf():
    ids = st.lists(st.integers(0, 80), min_size=1, max_size=10)
    rel = st.lists(st.tuples(st.integers(0, 2),
                             st.sampled_from(['<', '>', '<=', '>=', '==', '!=']),
                             st.floats(0, 1).map(lambda x: round(x, 3)),
                             st.sampled_from('&|'), st.integers(0, 1)).map(list),
                   min_size=1, max_size=3)
    i3 = st.integers(0, 3)
    return st.one_of(
        st.just(['all']), st.just(['surface']), st.tuples(st.just('vgroup'), i3).map(list),
        st.tuples(st.just('set'), i3).map(list), st.tuples(st.just('vin'), rel).map(list),
        st.tuples(st.just('vby'), ids).map(list), st.tuples(st.just('cby'), ids).map(list),
        st.tuples(st.just('vid'), ids).map(list), st.tuples(st.just('cid'), ids).map(list),
        st.tuples(st.just('cgroup'), st.integers(0, 50)).map(list),
        st.tuples(st.just('ref'), st.integers(0, 7)).map(list),
        st.tuples(st.just('ref'), st.integers(0, 7)).map(list))


def tree():
    def ext(ch):
        item = st.tuples(st.sampled_from('+-*'), st.sampled_from('vvvcsef'), st.booleans(), ch)
        return st.tuples(st.just('op'), ch, st.lists(item.map(list), min_size=1, max_size=3)
                         ).map(list)
    return st.recursive(leaf(), ext, max_leaves=5)


def strat(item):
    kinds = ['cell', 'cell', 'facet', 'face', 'edge', 'vertex', 'cell_only', 'facet_only',
             'edge_only', 'face_only', 'vertex_only']
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=3 if item[0] == '2' else 2, n_ng=4,
                          perm=st.booleans()),
        'sets': st.lists(st.lists(st.integers(0, 40), min_size=1, max_size=8), min_size=1,
                         max_size=3),
        'regions': st.lists(st.tuples(tree(), st.sampled_from(kinds),
                                      st.sampled_from([0] * 7 + [1, 2])).map(list),
                            min_size=2, max_size=7),
        'mode': st.sampled_from([0, 0, 1]), 'order': st.integers(0, 1000),
        'allow_empty': st.integers(0, 1), 'ids': st.lists(st.integers(0, 50), min_size=1,
                                                          max_size=8)})


def strat_bad(item):
    return st.fixed_dictionaries({
        'n': st.integers(1, 6), 'parent': st.booleans(),
        'deps': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=7),
        'missing': st.sampled_from([0, 0, 0, 1, 2])})


KINDS = ['1_2', '2_3', '2_4', '2_mix', '3_4', '3_8']
SUBS = [Sub('expr', strat, run, n=600, items=KINDS, shards=4),
        Sub('deps', strat_bad, run_bad, n=150)]
