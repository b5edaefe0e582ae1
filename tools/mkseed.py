"""Helper to write /verif/seeded/<id>/ from textual edits of /repo files."""
import json
import os
import subprocess

DEMO = '''#!/bin/bash
# Run in the root of a built sfepy tree.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=$(mktemp -d) MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
trap 'rm -rf "$HOME"' EXIT
PYTHONPATH=$PWD /opt/venv/bin/python "$D/demo.py"
'''


def mk(name, prop, needs, breaks, edits, demo, repo='/repo'):
    out = os.path.join('/verif/seeded', name)
    os.makedirs(out, exist_ok=True)
    old = {}
    try:
        for fn, a, b in edits:
            path = os.path.join(repo, fn)
            txt = open(path).read()
            old.setdefault(path, txt)
            assert txt.count(a) == 1, (name, fn, txt.count(a), a)
            open(path, 'w').write(txt.replace(a, b))
        diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
        assert diff
    finally:
        for path, txt in old.items():
            open(path, 'w').write(txt)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(out + '/meta.json', 'w'), indent=1)
