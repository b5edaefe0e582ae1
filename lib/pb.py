"""Problems from dictionaries on generated meshes."""
import sys

import gen


def problem(mesh_case, conf, mesh=None, **kw):
    """A Problem of a configuration dictionary on a generated mesh."""
    from sfepy.base.conf import ProblemConf
    from sfepy.discrete import Problem
    from sfepy.discrete.fem.meshio import UserMeshIO

    def hook(m, mode):
        if mode == 'read':
            return mesh if mesh is not None else gen.mesh(mesh_case)[0]
    d = dict(conf)
    d['filename_mesh'] = UserMeshIO(hook)
    pc = ProblemConf.from_dict(d, sys.modules[__name__])
    return Problem.from_conf(pc, **kw)
