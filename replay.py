#!/opt/venv/bin/python
"""Replay a counterexample against the unmodified code in /repo.

exit 1: the property is violated (as reported); 0: it is not.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('SYMX_REPO', '/repo'))
sys.dont_write_bytecode = True


def main():
    from symx import rp
    with open(sys.argv[1]) as f:
        c = json.load(f)
    return rp.replay(c)


if __name__ == '__main__':
    sys.exit(main())
