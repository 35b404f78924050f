#!/usr/bin/env python3
"""Runs the monitors of one property:  check.py <property> [--replay FILE] [--tier quick|thorough] [--seed N]"""
import os
import sys

PY = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}

if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in WANT.items()):
        os.environ.update(WANT)
        py = PY if os.path.exists(PY) else sys.executable
        os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    from mon import run
    sys.exit(run.main(here, sys.argv[1:]))
