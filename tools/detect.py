"""detect.py [--all] [id...]: runs the property's check (or all checks) on scratch copies of /repo with each planted bug;
what was observed for the own property is kept in tools/detected.json (used by tools/design.py)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


every = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
store = V + '/tools/detected.json'
known = json.load(open(store)) if os.path.exists(store) else {}
base = tempfile.mkdtemp(prefix='detect.')
for id in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, id)))
    d = base + '/' + id
    sh('cp -a /repo ' + d)
    if sh('git apply %s/seeded/%s/patch.diff' % (V, id), cwd=d).returncode:
        print(id, 'DOES NOT APPLY')
    else:
        res = []
        for p in ['C%02d' % i for i in range(1, 33)] if every else [m['property']]:
            r = sh('VERIF_REPO=%s VERIF_SEED=1 timeout 900 python3 check.py %s' % (d, p), cwd=V)
            n = r.stdout.count('VIOLATION property=')
            if p == m['property']:
                part = sorted({l.split('replay=')[1].split('-')[1] for l in r.stdout.split('\n') if l.startswith('VIOLATION')})
                known[id] = [m['property'], r.returncode, n, part]
                print(id, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode), n, part)
            if r.returncode:
                res.append('%s:%d' % (p, r.returncode))
        if every:
            print(id, 'all:', ' '.join(res))
            known[id] = known[id][:4] + [[x.split(':')[0] for x in res if x.endswith(':1')]]
    shutil.rmtree(d)
    sys.stdout.flush()
    json.dump({k: v for k, v in sorted(known.items()) if os.path.isdir(V + '/seeded/' + k)}, open(store, 'w'), indent=0)
shutil.rmtree(base)
