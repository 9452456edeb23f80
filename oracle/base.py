# coding: utf-8
"""Concrete side: cases (JSON-able inputs) run on the real code and compared with the specification functions."""
import json
import random
import signal
import time
import traceback

CASES = {}        # name -> function(params)
GENS = {}         # property -> [(case name, generator(rng) -> params, weight)]
FIXED = {}        # property -> [(case name, function() -> iterable of params)]


class Mismatch(Exception):
    pass


class Timeout(BaseException):
    pass


def case(name):
    def deco(f):
        CASES[name] = f
        return f
    return deco


def gen(prop, name, weight=1):
    def deco(f):
        GENS.setdefault(prop, []).append((name, f, weight))
        return f
    return deco


def fixed(prop, name):
    def deco(f):
        FIXED.setdefault(prop, []).append((name, f))
        return f
    return deco


def need(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def same(got, want, what):
    if got != want or want != got:
        raise Mismatch('%s: got %r, expected %r' % (what, got, want))


def run_case(name, params, limit=30):
    """None when the case holds, else a message"""
    def onalarm(sig, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        CASES[name](params)
        return None
    except Mismatch as e:
        return str(e)
    except Timeout:
        return 'no result within %s s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (f.filename.split('/')[-1], f.name) for f in reversed(tb[-4:]))
        return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def shrink(name, params, budget=4.0):
    """smaller failing parameters, by deleting list elements / shortening strings"""
    end = time.time() + budget

    def variants(v):
        if isinstance(v, list):
            for k in range(len(v)):
                yield v[:k] + v[k + 1:]
            for k in range(len(v)):
                for x in variants(v[k]):
                    yield v[:k] + [x] + v[k + 1:]
        elif isinstance(v, dict):
            for k in v:
                for x in variants(v[k]):
                    d = dict(v)
                    d[k] = x
                    yield d
        elif isinstance(v, str) and len(v) > 1:
            for k in range(len(v)):
                yield v[:k] + v[k + 1:]
    msg = run_case(name, params, 5)
    if msg is None or msg.startswith('no result'):
        return params, msg
    kind = msg.split(':')[0]
    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(params):
            if time.time() > end:
                break
            try:
                m = run_case(name, v, 5)
            except Exception:
                continue
            if m is not None and m.split(':')[0] == kind:
                params, msg, progress = v, m, True
                break
    return params, msg


def stream(prop, seed, enumerate_fixed=True):
    """the cases of a search, in order: (name, params, whether it is one of the enumerated ones)"""
    rng = random.Random('%s/%s' % (prop, seed))
    n = 0
    for name, f in FIXED.get(prop, ()) if enumerate_fixed else ():
        for params in f():
            n += 1
            yield name, params, True
    gens = [g for g in GENS.get(prop, ()) for _ in range(g[2])]
    while gens:
        name, f, w = gens[n % len(gens)]
        n += 1
        yield name, f(rng), False


def search(prop, seed, seconds, stats, known=lambda name, params: False, met=None, enumerate_fixed=True):
    """look for a failing input; returns (case, params, message) or None; known failures are collected in met"""
    seen, samples, per = set(), [], {}
    n = fixed_n = 0
    hit = None
    end = time.time() + seconds
    for name, params, listed in stream(prop, seed, enumerate_fixed):
        if not listed and time.time() >= end: break
        n += 1
        seen.add(hash((name, json.dumps(params, sort_keys=True))))
        if listed:
            fixed_n = n
        else:
            per[name] = per.get(name, 0) + 1
            if len(samples) < 3 and per[name] == 2:
                samples.append({'case': name, 'params': params} if len(json.dumps(params)) < 1500 else {'case': name, 'params': 'omitted (long)'})
        m = run_case(name, params)
        if m is not None and known(name, params):
            if met is not None: met.append((name, params, m))
            continue
        if m is not None:
            hit = name, params, m
            break
    stats.update(evaluations=n, distinct_nontrivial=len(seen), enumerated=fixed_n, per_case=per, samples=samples)
    return hit
