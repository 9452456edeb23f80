#!/usr/bin/env python3-vt
# coding: utf-8
"""Decides one property:  python3-vt check.py C07            (tier from VERIF_TIER, seed from VERIF_SEED)
Reproduces a violation:   python3-vt check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('UTG_REPO', '/repo')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)

import json
import time
import traceback
import multiprocessing


def load():
    from pyvc import driver
    return driver


def main(argv):
    for f in (sys.stdout, sys.stderr): f.reconfigure(encoding='utf-8', errors='backslashreplace')
    if argv[:1] == ['--replay']:
        return load().replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if len(argv) > 1: tier = argv[1]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    try:
        d = load()
    except Exception as e:
        # the library does not even load: nothing it promises holds
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-load.json' % pid)
        with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f: json.dump({'property': pid, 'kind': 'load', 'message': traceback.format_exc()}, f, ensure_ascii=False, indent=1)
        print('the library cannot be loaded: %s: %s' % (type(e).__name__, e))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    return d.run(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
