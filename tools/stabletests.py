"""stabletests.py TREE LOG: run the stable tests of a built tree; print ok or the failures."""
import json
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

tree, log = sys.argv[1:3]
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
with tempfile.TemporaryDirectory() as w:
    for d in ('home', 'cwd', 'output'):
        os.mkdir(os.path.join(w, d))
    env = dict(os.environ, HOME=w + '/home', PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    with open(log, 'w') as f:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--timeout=300', '--continue-on-collection-errors', '-n', '8', '-W', 'ignore',
                        '--basetemp=' + w + '/basetemp', '--output-dir=' + w + '/output',
                        '-o', 'junit_family=xunit2', '--junitxml=' + w + '/junit.xml',
                        tree + '/sfepy/tests'], cwd=w + '/cwd', env=env, stdout=f, stderr=f)
    ok = set()
    for tc in ET.parse(w + '/junit.xml').iter('testcase'):
        if not len([c for c in tc if c.tag in ('failure', 'error', 'skipped')]):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
bad = [s for s in stable if s not in ok]
if len(bad) > 50:
    bad = bad[:3] + ['... %d' % len(bad)]
print('ok' if not bad else 'FAILED:' + ','.join(bad))
