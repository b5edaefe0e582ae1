"""Shared helpers on top of the public sfepy interface."""
import numpy as np


def rows(conn):
    off, ind = np.asarray(conn.offsets), np.asarray(conn.indices)
    return [tuple(ind[off[i]:off[i + 1]].astype(int).tolist()) for i in range(len(off) - 1)]


def fun_region(dom, name, mask, kind='cell', parent=None):
    """Region of the cells (kind 'cell') or vertices given by a mask."""
    from sfepy.discrete import Function, Functions
    mask = np.asarray(mask, dtype=bool)

    def sel(coors, domain=None):
        return np.where(mask)[0]
    fs = Functions([Function('sel', sel)])
    what = 'cells' if kind == 'cell' else 'vertices'
    return dom.create_region(name, '%s by sel' % what, kind, functions=fs, parent=parent)


def facet_region(dom, name, facets, parent=None):
    """Finalized facet region registered in the domain."""
    from sfepy.discrete.common.region import Region
    reg = Region.from_facets(np.sort(np.asarray(facets)).astype(np.uint32), dom, name=name,
                             parent=parent)
    reg.finalize()
    reg.update_shape()
    dom.regions.append(reg)
    return reg


def pick(seed, n, frac):
    """Random non-empty subset mask."""
    rs = np.random.RandomState(seed)
    m = rs.rand(n) < frac
    if not m.any():
        m[rs.randint(n)] = True
    return m
