"""Writes DESIGN.md from design_head.md, properties.jsonl, the property modules and what detect.py observed."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)


def load(p, default):
    return json.load(open(p)) if os.path.exists(p) else default


def main():
    out = [open('tools/design_head.md').read().rstrip(), '', '## 5. The properties', '',
           'Per property: what is claimed, why unit tests cannot settle it, what the monitors watch (the rule printed into the evidence), how much of it '
           '(cases in the quick and the thorough tier; a case is a whole history or a batch of inputs), counters without which a run says INCONCLUSIVE, '
           'assumptions. Costs are those of the last quick run on 8 cores.', '']
    for l in open('properties.jsonl'):
        p = json.loads(l)
        m = importlib.import_module('mon.props.' + p['id'].lower())
        ev = load('evidence/%s.json' % p['id'], {})
        out += ['### %s – %s' % (p['id'], p['title']), '',
                '*Quantified over* %s. *Beyond tests:* %s' % (p['quantifier']['text'], p['why_tests_cant']), '',
                '*Monitored:* ' + m.RULE, '',
                '*Bounds (quick/thorough cases):* ' + ', '.join('%s %d/%d' % (n, q, t) for n, q, t, _ in m.PARTS) +
                ('; level: ' + m.LEVEL if hasattr(m, 'LEVEL') else '') + '.', '',
                '*Never quiet without:* ' + ', '.join('`%s`' % x for x in m.REQUIRED) + '.', '',
                '*Assumes:* ' + '; '.join(getattr(m, 'ASSUMPTIONS', [])) + '.', '']
        del ev
    d = load('tools/detected.json', {})
    out += ['## 6. Planted bugs', '',
            'Each compiles and passes the 41 stable tests; `demo.sh` shows it. "caught" = exit 1 of the quick check of its property (seed 1; the parts '
            'which reported it, and the number of failing cases up to the cut-off at five reports). "also" = other checks that report it, where all were run.', '',
            '| bug | property | needs | what it breaks | observed |', '|---|---|---|---|---|']
    for i in sorted(os.listdir('seeded')):
        m = load('seeded/%s/meta.json' % i, {})
        x = d.get(i)
        o = 'not run' if not x else ('caught (%s; %d)' % (', '.join(x[3]), x[2]) if x[1] == 1 else 'MISSED' if x[1] == 0 else 'exit %d' % x[1])
        if x and len(x) > 4:
            o += '; also ' + ', '.join(y for y in x[4] if y != x[0]) if [y for y in x[4] if y != x[0]] else ''
        out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], o))
    out += ['', open('tools/design_tail.md').read().rstrip() if os.path.exists('tools/design_tail.md') else '']
    open('DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')


main()
