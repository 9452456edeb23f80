"""usage: strict.py [properties]: run the quick checks on /repo; complain about every obligation that is not discharged (the checks themselves stay quiet about those)"""
import sys, os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ['C%02d' % i for i in range(1, 22)]
bad = 0
for p in props:
    r = subprocess.run(['python3-vt', 'check.py', p], cwd=HERE, capture_output=True, text=True)
    last = [x for x in r.stdout.splitlines() if ' obligations' in x][-1:]
    left = [x for x in r.stdout.splitlines() if 'not discharged' in x]
    e = json.load(open(os.path.join(HERE, 'evidence', p + '.json')))
    m = [(e[k]) for k in ('obligations', 'discharged') if k in e] or [e['coverage'][k] for k in ('obligations', 'discharged')]
    ok = r.returncode == 0 and not left and m[0] == m[1]
    bad += not ok
    print(p, 'ok' if ok else 'BAD', *last, *left, r.stderr[-300:], flush=True)
sys.exit(bool(bad))
