#!/usr/bin/env python3
"""Record a fix: tools/fix.py PROP KEY WHAT [COMMIT] (default: the last commit of /repo)."""
import json, subprocess, sys
p, key, what = sys.argv[1:4]
h = sys.argv[4] if len(sys.argv) > 4 else subprocess.check_output(
    ['git', '-C', '/repo', 'log', '-1', '--format=%h']).decode().strip()
k = json.load(open('/verif/known_findings.json'))
k['findings'].append({'property': p, 'key': key, 'status': 'fixed', 'commit': h,
                      'what': 'fixed: property=%s %s %s' % (p, h, what)})
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
