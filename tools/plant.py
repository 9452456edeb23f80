# coding: utf-8
"""Write /verif/seeded/<id>/ from tools/bugs.py; every change is tried in a scratch copy of /repo first.
usage: python3 tools/plant.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
from bugs import BUGS

PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if 'tests' in json.load(open('/opt/vp/BASELINE.json')) else None
DEMO = '''#!/bin/bash
# run in /repo
export PYTHONDONTWRITEBYTECODE=1
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8'))


def plant(name, bug):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        out = os.path.join(tmp, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write('# coding: utf-8\n' + bug['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        r = run(['bash', os.path.join(out, 'demo.sh')], repo)
        if r.returncode: return 'demo fails on the unchanged tree: ' + (r.stderr or r.stdout)[-300:]
        for f, old, new in bug['edits']:
            p = os.path.join(repo, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1: return '%d matches in %s for %r' % (s.count(old), f, old)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        d = run(['git', 'diff'], repo).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'utg/tests'], repo)
        last = t.stdout.strip().splitlines()[-1]
        if t.returncode: return 'existing tests fail: ' + last + ' ' + ' '.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))[:300]
        r = run(['bash', os.path.join(out, 'demo.sh')], repo)
        if r.returncode == 0: return 'demo passes with the change'
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), ensure_ascii=False, indent=1)
        dst = os.path.join(SEEDED, name)
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return 'ok (%s) %s' % (last, (r.stderr or r.stdout).strip().splitlines()[-1:])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    for name, bug in BUGS.items():
        if sys.argv[1:] and name not in sys.argv[1:]: continue
        print(name, plant(name, bug), flush=True)
