"""Writes MANIFEST.json for the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = {
    'world': 'runtime monitoring: randomized wallet histories on a model network, online checkers against an independent model ledger',
    'codec': 'runtime monitoring: randomized and hostile inputs to the real code, online checker against an independent reference implementation',
    'fault': 'runtime monitoring under fault injection: every request of an operation fails in turn, monitors on pushes, balance and repetition',
    'net': 'runtime monitoring: real client against faulty loopback HTTP servers, offline checker over the recorded request logs',
}
KIND = {'C29': 'fault', 'C23': 'net', 'C24': 'codec', 'C27': 'codec', 'C31': 'codec', 'C18': 'codec', 'C21': 'codec'}
KIND.update({'C%02d' % n: 'codec' for n in list(range(7, 15)) + [33, 34, 35]})


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    for p in props:
        f = os.path.join(HERE, 'mon', 'props', p.lower() + '.py')
        if not os.path.exists(f):
            continue
        src = open(f).read()
        level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'exploration'
        kind = KIND.get(p, 'world')
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': TECH[kind], 'level': level,
            'level_note': 'holds on the executions the monitors observed (seeded, counted in the evidence); not exhaustive'})
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -m mon.selftest', 'checks': checks, 'not_applicable': []},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', [p for p in props if p not in [c['property'] for c in checks]])


main()
