#!/usr/bin/env python3
"""Run one property check: check.py ID [--replay FILE] [--sub NAMES]."""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
os.environ.setdefault('VERIF_T0', repr(time.time()))
import bootstrap  # noqa: E402

SANITIZED = ('Z01',)
bootstrap.reexec(sanitize=len(sys.argv) > 1 and sys.argv[1] in SANITIZED)
import harness  # noqa: E402


def main():
    pid = sys.argv[1]
    try:
        bootstrap.setup(sanitize=pid in SANITIZED)
    except Exception as exc:
        print('ERROR of the check: set up failed: %s' % exc)
        return 2
    import importlib
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    mod = importlib.import_module(pid.lower())
    return harness.main(mod, sys.argv[2:])


if __name__ == '__main__':
    ret = main()
    sys.stdout.flush()
    sys.exit(ret)
