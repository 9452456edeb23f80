# coding: utf-8
"""Runs the check of one property: discharges its goals and those of every contract they rely on, searches concrete inputs next
to it, decides the outcome and writes the evidence."""
import json
import os
import re
import sys
import time
import traceback
import itertools
import subprocess
import multiprocessing
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import verify as V
from .values import *
from contracts import library as lib
from oracle import base as oracle
from oracle import cases as _cases      # noqa: registers the cases
from utg import words

JOBS = 8
TIERS = {'quick': dict(goal=60.0, total=330.0, search=15.0, searchers=2, deep=60.0),
         'thorough': dict(goal=400.0, total=2400.0, search=300.0, searchers=3, deep=600.0)}

_GOALS = {}


def goals_of(src):
    if src not in _GOALS:
        kind, _, name = src.partition(':')
        if kind == 'contract':
            (c,) = [c for c in lib.CONTRACTS.values() if c.name == name]
            _GOALS[src] = list(c.make_goals())
        else:
            _GOALS[src] = [g for f in lib.PROPERTIES.get(name, ()) for g in f()]
    return _GOALS[src]


# ---------------------------------------------------------------- native replay of a counterexample

def plain(v, depth=0):
    """comparable content of a native value"""
    if depth > 40: return '...'
    if isinstance(v, words.Properties): return {R: v.get(R) for R in lib.ref.RELS if v.is_specified(R)}
    if hasattr(v, '_relation'): return v
    if isinstance(v, dict): return {(k if isinstance(k, (str, int, type)) else plain(k, depth + 1)): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, list): return [plain(x, depth + 1) for x in v]
    if isinstance(v, tuple): return tuple(plain(x, depth + 1) for x in v)
    if isinstance(v, (set, frozenset)): return v
    mod = getattr(type(v), '__module__', '')
    if mod.startswith('utg.'):
        out = {}
        for c in type(v).__mro__:
            for n in c.__dict__.get('__slots__', ()):
                if not n.startswith('_lazy__') and hasattr(v, n): out[n] = plain(getattr(v, n), depth + 1)
        for n, x in getattr(v, '__dict__', {}).items():
            if not n.startswith('_lazy__'): out[n] = plain(x, depth + 1)
        return (type(v).__name__, out)
    return v


def native(fn, args, kwargs):
    try:
        return 'returns', fn(*args, **kwargs)
    except Exception as e:
        return 'raises', e


def show(v):
    k, x = v
    try: return '%s %r' % (k, plain(x) if k == 'returns' else x)
    except Exception: return k


def unstar(m, args, memo):
    out = []
    for a in args:
        if isinstance(a, V.StarSeq): out.extend(V.reify_seq(m, a.seq, memo))
        else: out.append(V.reify(m, a, memo))
    return tuple(out)


def confirm(goal, res):
    """run both sides natively on the arguments of the counterexample; (verdict, text)"""
    text = []
    for m in res.models[:6]:
        try:
            args, kwargs = res.args
            made = []
            for _ in range(3):
                memo = {}
                made.append((unstar(m, args, memo), {k: V.reify(m, x, memo) for k, x in kwargs.items()}))
                partial = 'partial' in memo
        except V.CannotReify as e:
            text.append('arguments not reconstructible (%s)' % e)
            continue
        except Exception as e:
            text.append('arguments not reconstructible (%s: %s)' % (type(e).__name__, e))
            continue
        (a, ka), (b, kb), (c, kc) = made
        try: given = repr([plain(x) for x in a] + ([{k: plain(x) for k, x in ka.items()}] if ka else []))
        except Exception: given = '?'
        got = native(goal.lhs, a, ka)
        exp = native(goal.rhs, b, kb) if goal.rhs else ('returns', None)
        if goal.rhs is None: bad = got[0] == 'raises'
        elif got[0] != exp[0]: bad = True
        elif got[0] == 'raises': bad = type(got[1]) is not type(exp[1])
        else: bad = plain(got[1]) != plain(exp[1])
        if bad:
            return 'confirmed', 'arguments %s: the code %s, specified: %s' % (given, show(got), show(exp))
        if not goal.modifies(a) and (plain(list(a)) != plain(list(c)) or plain(ka) != plain(kc)):
            return 'confirmed', 'arguments %s are changed to %r' % (given, [plain(x) for x in a])
        text.append('arguments %s: both sides agree when run (%s)%s' % (given[:400], show(got)[:200], ', but are only part of the counterexample' if partial else ''))
    if text and all('both sides agree' in t and 'only part of' not in t for t in text): return 'spurious', '; '.join(text)
    return 'unconfirmed', '; '.join(text) or 'no model'


# ---------------------------------------------------------------- work items

def work_goal(src, k, budget, dropped=()):
    g = goals_of(src)[k]
    if isinstance(g, lib.Ground): return work_ground(src, k, g, budget)
    res = V.discharge(g, lambda I, goal: lib.install(I, goal, dropped), budget)
    row = res.row()
    row.update(src=src, k=k, contracts=sorted(lib.CONTRACTS[f].name for f in res.contracts if f in lib.CONTRACTS), trusted=sorted(res.trusted),
               called=sorted('%s.%s' % (f.__module__, f.__qualname__) for f in res.called))
    row['names'] = [(o.name, o.status) for o in res.obligations]
    row['backend'] = 'z3'
    if res.status == 'refuted':
        verdict, text = confirm(g, res)
        if g.closed and verdict != 'confirmed': verdict = 'spurious'
        row.update(verdict=verdict, text=text, model=str(res.models[0])[:3000] if res.models else '')
    return row


def work_ground(src, k, g, budget):
    t = time.time()
    row = dict(src=src, k=k, goal=g.name, obligations=0, discharged=0, paths=0, solver_seconds=0.0, why='', contracts=[], trusted=[], called=list(g.called), names=[], backend=g.backend)
    try:
        n = g.fn()
        row.update(status='proved' if n else 'unknown', obligations=n, discharged=n, why='' if n else 'no instances')
    except oracle.Mismatch as e:
        row.update(status='refuted', verdict='confirmed', text=str(e), obligations=1, why=str(e)[:300], model='')
    except Exception as e:
        row.update(status='unsupported', why='%s: %s' % (type(e).__name__, str(e)[:300]))
    row['seconds'] = round(time.time() - t, 2)
    return row


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) case=(\S+) params=(\{.*?\}) :: (.*)$', line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


def work_search(pid, seed, seconds, fixed):
    stats, met = {}, []
    known = known_findings(pid)
    t = time.time()
    hit = oracle.search(pid, seed, seconds, stats, lambda n, p: any(n == c and p == q for c, q, _ in known), met, fixed)
    out = dict(search=True, stats=stats, hit=None, met=[(n, p) for n, p, m in met], seconds=round(time.time() - t, 1))
    if hit:
        name, params, msg = hit
        params, msg = oracle.shrink(name, params)
        if msg is None: params, msg = hit[1], hit[2]
        out['hit'] = (name, params, msg)
        out['history'] = (seed, fixed, stats['evaluations'])
    return out


# ---------------------------------------------------------------- one property

def write_replay(pid, what, data):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, what))
    data['property'] = pid
    with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f: json.dump(data, f, ensure_ascii=False, indent=1, default=repr)
    return path


def reproduces(path):
    try:
        return subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--replay', path], capture_output=True, timeout=60).returncode == 1
    except subprocess.TimeoutExpired:
        return True


def replayable(pid, name, params, msg, failed, history):
    """a replay file that fails in a process of its own: the case alone, or with the cases that ran before it"""
    data = dict(kind='case', case=name, params=params, message=msg, obligations_failed=failed)
    path = write_replay(pid, 'case', data)
    if reproduces(path): return path
    seed, fixed, n = history
    cases = [(c, p) for c, p, _ in itertools.islice(oracle.stream(pid, seed, fixed), n)]
    end = time.time() + 120
    for k in [1, 2, 5, 20, 100, 1000, n]:
        if k > n or time.time() > end: continue
        d = dict(data, kind='history', cases=cases[-k:], search=None) if k <= 1000 else dict(data, kind='history', cases=None, search=[seed, fixed, n])
        path = write_replay(pid, 'history', d)
        if reproduces(path): return path
    return write_replay(pid, 'case', dict(data, note='fails only after what the checking process had done before'))


def run(pid, tier, seed):
    t0 = time.time()
    P = TIERS[tier]
    ctx = multiprocessing.get_context('fork')
    rows, searches, done = [], [], set()
    pool = ProcessPoolExecutor(JOBS, mp_context=ctx)
    dropped = set()
    pend = {}

    def submit_source(src):
        if src in done: return
        done.add(src)
        try: n = len(goals_of(src))
        except Exception as e:
            rows.append(dict(src=src, k=0, goal=src, status='unsupported', why='%s: %s' % (type(e).__name__, e), obligations=0, discharged=0, paths=0, seconds=0, solver_seconds=0, contracts=[], trusted=[], called=[], names=[], backend='z3'))
            return
        for k in range(n): submit_goal(src, k)

    def submit_goal(src, k):
        pend[pool.submit(work_goal, src, k, P['goal'], tuple(sorted(dropped)))] = ('goal', src, k)

    def drop(name):
        """a contract that was not established: whoever relied on it is verified again without it"""
        if name in dropped: return
        dropped.add(name)
        for r in list(rows):
            if name in r['contracts'] and r['status'] == 'proved':
                rows.remove(r)
                submit_goal(r['src'], r['k'])

    def submit_search(k, seconds):
        pend[pool.submit(work_search, pid, '%s-%s' % (seed, k) if k else seed, seconds, k == 0)] = ('search', k, None)
    has_cases = pid in oracle.GENS or pid in oracle.FIXED
    violation = None
    if has_cases:
        for k in range(P['searchers'] if pid in oracle.GENS else 1): submit_search(k, P['search'])
    submit_source('property:' + pid)
    deep = False
    since = None
    timed_out = []
    try:
        while pend:
            left = P['total'] - (time.time() - t0) + (P['deep'] + 30 if deep else 0)
            if since is not None: left = since + 20 - time.time()
            if left <= 0:
                timed_out = [v for v in pend.values()]
                break
            fs, _ = wait(list(pend), timeout=left, return_when=FIRST_COMPLETED)
            for f in fs:
                kind, a, b = pend.pop(f)
                try: r = f.result()
                except Exception as e:
                    if kind == 'goal':
                        rows.append(dict(src=a, k=b, goal='%s #%d' % (a, b), status='unsupported', why='worker: %s: %s' % (type(e).__name__, e), obligations=0, discharged=0, paths=0, seconds=0, solver_seconds=0, contracts=[], trusted=[], called=[], names=[], backend='z3'))
                    continue
                if kind == 'search':
                    searches.append(r)
                    if r['hit'] and violation is None: violation = ('case', r['hit'], r['history'])
                else:
                    if set(r['contracts']) & dropped:
                        submit_goal(a, b)
                        continue
                    rows.append(r)
                    for c in r['contracts']: submit_source('contract:' + c)
                    if r['status'] != 'proved' and a.startswith('contract:'): drop(a[9:])
            if violation:
                # a failing input is known: name an obligation that fails, if one is found soon
                if any(r['src'] == 'property:' + pid and r['status'] != 'proved' for r in rows): break
                if since is None: since = time.time()
                if time.time() - since > 20 or not any(v[0] == 'goal' for v in pend.values()): break
                continue
            if not pend and not deep and pid in oracle.GENS and any(r['status'] != 'proved' for r in rows if r['src'].startswith('property:')):
                # the proof is not complete: the bounded stand-in gets a deeper search
                deep = True
                for k in range(JOBS - 1): submit_search(100 + k, P['deep'])
    finally:
        for f in pend: f.cancel()
        procs = list(getattr(pool, '_processes', {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try: p.kill()
            except Exception: pass
    for v in timed_out:
        if v[0] == 'goal':
            rows.append(dict(src=v[1], k=v[2], goal=goals_of(v[1])[v[2]].name, status='unknown', why='time budget of the check', obligations=0, discharged=0, paths=0, seconds=0, solver_seconds=0, contracts=[], trusted=[], called=[], names=[], backend='z3'))
    return conclude(pid, tier, seed, t0, rows, searches, violation)


def conclude(pid, tier, seed, t0, rows, searches, violation):
    out = []
    own = [r for r in rows if r['src'].startswith('property:')]
    lost = [r for r in rows if not r['src'].startswith('property:') and r['status'] != 'proved']
    refuted = [r for r in own if r['status'] == 'refuted']
    confirmed = [r for r in refuted if r.get('verdict') == 'confirmed']
    unconfirmed = [r for r in refuted if r.get('verdict') == 'unconfirmed']
    undecided = [r for r in own if r['status'] in ('unknown', 'unsupported') or r.get('verdict') == 'spurious']
    line = None
    if violation:
        name, params, msg = violation[1]
        failed = [r['why'] for r in refuted + undecided]
        path = replayable(pid, name, params, msg, failed, violation[2])
        out.append('%s: %s' % (name, msg[:1500]))
        for r in (refuted + undecided)[:3]: out.append('  failed obligation: %s: %s' % (r['goal'], r['why'][:300]))
        line = 'VIOLATION property=%s replay=%s' % (pid, path)
    elif confirmed:
        r = confirmed[0]
        path = write_replay(pid, 'goal', dict(kind='goal', src=r['src'], k=r['k'], goal=r['goal'], obligation=r['why'], message=r['text'], model=r['model']))
        out.append('%s\n  failed obligation: %s\n  %s' % (r['goal'], r['why'], r['text'][:1500]))
        line = 'VIOLATION property=%s replay=%s' % (pid, path)
    elif unconfirmed:
        r = unconfirmed[0]
        path = write_replay(pid, 'obligation', dict(kind='obligation', src=r['src'], k=r['k'], goal=r['goal'], obligation=r['why'], message=r['text'], model=r['model']))
        out.append('%s\n  failed obligation: %s\n  %s' % (r['goal'], r['why'], r['text'][:1500]))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)
    for s in searches:
        for n, p in s['met']:
            for c, q, text in known_findings(pid):
                if c == n and p == q:
                    m = 'KNOWN-FINDING: property=%s %s' % (pid, text)
                    if m not in out: out.append(m)
    evidence(pid, tier, seed, t0, rows, searches, undecided, lost, line)
    for m in out: print(m)
    for r in lost: print('contract not established, its callers were verified without it: %s: %s %s' % (r['goal'], r['status'], r['why'][:150]))
    for r in undecided: print('not discharged (bounded search only): %s: %s' % (r['goal'], r['why'][:200]))
    no, nd = sum(r['obligations'] for r in rows), sum(r['discharged'] for r in rows)
    ev = sum(s['stats'].get('evaluations', 0) for s in searches)
    print('%s %s: %d goals, %d obligations, %d discharged; %d concrete inputs; %.0f s' % (pid, tier, len(rows), no, nd, ev, time.time() - t0))
    if line:
        print(line)
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def evidence(pid, tier, seed, t0, rows, searches, undecided, lost, line):
    level = lib.LEVEL.get(pid, 'proof')
    no, nd = sum(r['obligations'] for r in rows), sum(r['discharged'] for r in rows)
    trusted = sorted({t for r in rows for t in r['trusted']})
    cov = {
        'obligations': no, 'discharged': nd,
        'checker_cmd': 'python3-vt check.py %s (pyvc: verification conditions from the functions in /repo, back end z3 %s; closed finite obligations by evaluation)' % (pid, V.z3.get_version_string()),
        'trusted_base': ['pyvc translation of the Python subset to z3 (pyvc/interp.py, loops.py, methods.py)', 'z3', 'CPython, for module loading and closed terms'] + trusted,
        'functions_under_contract': sorted({r['src'][9:] for r in rows if r['src'].startswith('contract:')}),
        'functions_verified_inline': sorted({f for r in rows for f in r['called'] if f.startswith('utg')}),
        'goals': [{k: r.get(k) for k in ('goal', 'status', 'obligations', 'discharged', 'paths', 'seconds', 'solver_seconds', 'backend', 'why')} for r in sorted(rows, key=lambda r: (r['src'], r['k']))],
        'contracts_not_established': [{'goal': r['goal'], 'status': r['status'], 'why': r['why']} for r in lost],
        'solver_seconds': round(sum(r['solver_seconds'] for r in rows), 2),
        'obligations_by_evaluation': sum(r['obligations'] for r in rows if r['backend'] == 'evaluation'),
        'bounded': [{'goal': r['goal'], 'reason': r['why'], 'bound': 'no proof: only the concrete inputs counted below'} for r in undecided] + lib.BOUNDED.get(pid, []),
        'evaluations': sum(s['stats'].get('evaluations', 0) for s in searches),
        'distinct_nontrivial': sum(s['stats'].get('distinct_nontrivial', 0) for s in searches),
        'rule': 'concrete inputs of oracle/cases.py run on the real code against spec/ref.py; distinct = different case parameters (per searcher)',
        'samples': [x for s in searches for x in s['stats'].get('samples', [])][:3],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': lib.ASSUMPTIONS + lib.PROPERTY_ASSUMPTIONS.get(pid, []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if line else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8', errors='backslashreplace') as f: json.dump(ev, f, ensure_ascii=False, indent=1)


def replay(path):
    d = json.load(open(path, encoding='utf-8'))
    print('property %s, %s' % (d['property'], d['kind']))
    if d['kind'] == 'case':
        msg = oracle.run_case(d['case'], d['params'])
        print('%s %s' % (d['case'], json.dumps(d['params'], ensure_ascii=False)))
        print(msg or 'holds')
        return 1 if msg else 0
    if d['kind'] == 'history':
        cases = d['cases'] or [(c, p) for c, p, _ in itertools.islice(oracle.stream(d['property'], d['search'][0], d['search'][1]), d['search'][2])]
        print('%d cases in a row' % len(cases))
        msg = None
        for c, p in cases:
            msg = oracle.run_case(c, p)
            if msg and not any(k[0] == c and k[1] == p for k in known_findings(d['property'])): break
        print(msg or 'holds')
        return 1 if msg else 0
    if d['kind'] in ('goal', 'obligation'):
        r = work_goal(d['src'], d['k'], 300.0)
        print('%s: %s %s' % (r['goal'], r['status'], r['why']))
        print(r.get('text', ''))
        return 1 if r['status'] == 'refuted' and r.get('verdict') != 'spurious' else 0
    print(d.get('message'))
    return 1
