# coding: utf-8
"""Cross-checks of the trusted parts, not part of any check.

interpreter   for the paths of a goal's left and right program: models of the path condition, rebuilt as Python objects; the program
              run by CPython on them must end as the path says, with the value the path computed. All contracts are inlined.
              Paths with summarised loops are compared too, but their value may be open: a difference there is only counted.
texts         the trusted facts of C13: re.findall, str.replace and % on every text up to a length against the cut of spec/ref.py

idioms        the same for the small programs of idioms.py

usage: python3-vt tools/selftest.py texts | idioms [name ...] | interpreter [Cxx ...]   (UTG_REPO as for check.py)"""
import itertools
import os
import random
import re
import sys
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('UTG_REPO', '/repo'), HERE, '/opt/venv/lib/python3.12/site-packages']
sys.setrecursionlimit(20000)
import z3
from pyvc import verify as V, driver as D
from pyvc.values import *
from pyvc.core import *
from contracts import library as lib
from spec import ref

MODELS = 6


def random_facts(rng, ctx, args):
    """equations that pin some of the constants, so that models differ"""
    consts = {}
    seen = set()

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: consts[e.decl().name()] = e
        for c in e.children(): walk(c)
    for a in ctx.solver.assertions(): walk(a)
    cs = list(consts.values())
    rng.shuffle(cs)
    for c in cs[:25]:
        if c.sort() == z3.BoolSort(): yield c == rng.choice([True, False])
        elif c.sort() == z3.IntSort(): yield c == rng.choice([0, 1, 2, 3, 5, -1, 11])
        elif c.sort() == z3.StringSort(): yield c == z3.StringVal(rng.choice(['', 'а', 'кот', 'в', 'Ёж', '[']))


def compare(goal, side, fn, p, m, args, kwargs):
    memo = {}
    a = D.unstar(m, args, memo)
    k = {n: V.reify(m, x, memo) for n, x in kwargs.items()}
    if 'partial' in memo: return 'partial', ''
    got = D.native(fn, a, k)
    if p.kind == 'raise':
        if got[0] != 'raises' or type(got[1]) is not p.value.cls: return 'differs', 'path raises %s, CPython %s' % (p.value.cls.__name__, D.show(got))
        return 'same', ''
    if got[0] != 'returns': return 'differs', 'path returns, CPython raises %r' % (got[1],)
    was = [(o, Ctx.state(o)) for o, st in p.heap[0].values()]
    for o, st in p.heap[0].values(): Ctx.set_state(o, st)
    try: want = D.plain(V.reify(m, p.value, {}))
    except V.CannotReify as e: return 'open', str(e)
    except Exception as e: return 'open', str(e)
    finally:
        for o, st in was: Ctx.set_state(o, st)
    have = D.plain(got[1])
    if want == have: return 'same', ''
    return 'differs', 'arguments %r: path %r, CPython %r' % ([D.plain(x) for x in D.unstar(m, args, {})], want, have)


def idiom(fn):
    def setup(b):
        d = b.ctx.reg(HDict({k: (z3.Const('has!' + k, z3.BoolSort()), b.int('d' + k)) for k in 'abc'}))
        return (b.int('n'), b.int('m'), b.str('s'), b.strs(b.length(), 'l'), b.ctx.reg(HList(Seq([GU(z3.BoolVal(True), b.int('t%d' % k)) for k in range(3)]))), d), {}
    return lib.Goal(fn.__name__, setup, fn, None, fn=fn)


def idiom_sound(name, seed, rounds=25):
    """what CPython returns for random arguments is among what the paths allow (loops are over-approximated, never the other way)"""
    import idioms
    fn = getattr(idioms, name)
    rng = random.Random(seed)
    ctx = Ctx()
    ctx.deadline = time.time() + 120
    ctx.solver.set('timeout', 4000)
    I = V.Interp(ctx, V.ROOTS + (os.path.join(HERE, 'tools') + '/',))
    b = V.Builder(ctx, I)
    args, kwargs = idiom(fn).setup(b)
    I.entry = ctx.snapshot()[0]
    out = {'exact': 0, 'allowed': 0, 'unsound': 0, 'open': 0, 'why': []}
    try: paths = ctx.explore(lambda: V.run_outcome(I, fn, args, kwargs))
    except Unsupported as e:
        out['why'].append('unsupported: %s' % e)
        return out
    ctx.solver.add(*ctx.lazy)
    f = args[3].seq.segs[0]
    for _ in range(rounds):
        n, m = rng.choice([-7, -1, 0, 1, 2, 3, 5, 12]), rng.choice([-7, -1, 0, 1, 2, 3, 5, 12])
        w = ['', 'а', 'кот', 'Ёж', 'о', 'кооо']
        x = rng.choice(w)
        l = [rng.choice([x] + w) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        t = [rng.choice([n, m, 0, 1, 4, 13]) for _ in range(3)]
        d = {k: rng.choice([n, m, 0, 8]) for k in 'abc' if rng.random() < .5}
        got = D.native(fn, [n, m, x, list(l), list(t), dict(d)], {})
        pin = [args[0].t == n, args[1].t == m, args[2].t == sv(x), f.n == len(l)] + [f.at(z3.IntVal(k)).t == sv(v) for k, v in enumerate(l)]
        pin += [s.v.t == v for s, v in zip(args[4].seq.segs, t)] + [args[5].ent[k][0] == (k in d) for k in 'abc'] + [args[5].ent[k][1].t == v for k, v in d.items()]
        best = 'unsound'
        others = False
        for p in paths:
            ctx.solver.push()
            was = [(o, Ctx.state(o)) for o, st in p.heap[0].values()]
            try:
                ctx.solver.add(*pin)
                ctx.solver.add(*[T(c) for c in p.conds])
                ctx.solver.add(*[T(c) for c in p.facts])
                if ctx.solver.check() == z3.unsat: continue
                for o, st in p.heap[0].values(): Ctx.set_state(o, st)
                if p.kind == 'raise': same = z3.BoolVal(got[0] == 'raises' and type(got[1]) is p.value.cls)
                elif got[0] != 'returns': same = z3.BoolVal(False)
                else: same = T(V.eq(spread(ctx, p.value), symbolic(got[1])))
                ctx.solver.add(*ctx.lazy)
                ok, no = ctx.solver.check(same) != z3.unsat, ctx.solver.check(z3.Not(same)) != z3.unsat
                if ok: best = 'allowed'
                if no: others = True
            except (NotComparable, Unsupported) as e:
                try:
                    r = ctx.solver.check()
                    if r == z3.unsat: continue
                    if r == z3.sat and D.plain(V.reify(ctx.solver.model(), p.value, {})) == D.plain(got[1]):
                        best = 'allowed'
                        continue
                except V.CannotReify: pass
                best = 'open' if best == 'unsound' else best
                others = True
                if len(out['why']) < 2: out['why'].append('open: %s' % e)
            finally:
                ctx.solver.pop()
                for o, st in was: Ctx.set_state(o, st)
        if best == 'allowed' and not others: best = 'exact'
        out[best] += 1
        if best == 'unsound' and len(out['why']) < 4: out['why'].append('unsound: %r -> %s' % ((n, m, x, l, t, d), D.show(got)))
    return out


def spread(ctx, v):
    """the value with every sequence of known length written out"""
    f = lambda x: spread(ctx, x)
    if type(v) is tuple: return tuple(f(x) for x in v)
    if isinstance(v, SUnion): return SUnion([(g, f(x)) for g, x in v.alts])
    if isinstance(v, (HList, STuple)) and type(v).__name__ in ('HList', 'STuple'):
        out = []
        for s in v.seq.segs:
            if isinstance(s, GU): out.append(GU(s.g, f(s.v)))
            else:
                if ctx.solver.check() != z3.sat: return v
                n = ctx.solver.model().eval(T(s.n), model_completion=True).as_long()
                if ctx.solver.check(T(s.n) != n) != z3.unsat: return v
                for k in range(n):
                    for x in s.facts_at(z3.IntVal(k)): ctx.solver.add(T(x))
                    out.append(GU(T(s.guard_at(z3.IntVal(k))), f(s.at(z3.IntVal(k)))))
        return type(v)(Seq(out))
    if isinstance(v, HDict) and v.is_fin(): return HDict({k: (p, f(x)) for k, (p, x) in v.ent.items()})
    return v


def symbolic(v):
    if isinstance(v, list): return HList(Seq([GU(z3.BoolVal(True), symbolic(x)) for x in v]))
    if isinstance(v, tuple): return tuple(symbolic(x) for x in v)
    if isinstance(v, dict): return HDict({k: (z3.BoolVal(True), symbolic(x)) for k, x in v.items()})
    return v


def sound(names):
    total = {}
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as pool:
        fs = [(n, pool.submit(idiom_sound, n, n)) for n in names]
        for n, f in fs:
            r = f.result()
            for k, v in r.items():
                if isinstance(v, int): total[k] = total.get(k, 0) + v
            if r['unsound'] or r['open'] or r['allowed'] or not r['exact']: print(n, {k: v for k, v in r.items() if isinstance(v, int)}, r['why'][:3])
    print(total)
    return 1 if total.get('unsound') else 0


def goals_of(src):
    if not src.startswith('idiom:'): return D.goals_of(src)
    import idioms
    return [idiom(getattr(idioms, src[6:]))]


def goal_item(src, k, seed):
    g = goals_of(src)[k]
    if isinstance(g, lib.Ground): return None
    out = {'goal': src + ': ' + g.name, 'same': 0, 'differs': 0, 'loop differs': 0, 'open': 0, 'partial': 0, 'inexact': 0, 'why': []}
    rng = random.Random(seed)
    for side in ('lhs', 'rhs'):
        fn = getattr(g, side)
        if fn is None: continue
        ctx = Ctx()
        ctx.deadline = time.time() + 60
        ctx.solver.set('timeout', 4000)
        try:
            I = V.Interp(ctx, V.ROOTS + (os.path.join(HERE, 'tools') + '/',))
            named, g.named = g.named, {}
            try:
                lib.install(I, g, [c.name for c in lib.CONTRACTS.values()])
                I.unroll = g.unroll
                b = V.Builder(ctx, I)
                made = g.setup(b)
                args, kwargs = made if isinstance(made, tuple) and len(made) == 2 and isinstance(made[1], dict) and isinstance(made[0], tuple) else (made, {})
                snap = ctx.snapshot()
                I.entry = snap[0]
                paths = ctx.explore(lambda: V.run_outcome(I, fn, args, kwargs))
                if src.startswith('idiom:'): ctx.solver.add(*ctx.lazy)
            finally: g.named = named
            rng.shuffle(paths)
            for p in paths[:12]:
                for _ in range(MODELS):
                    ctx.solver.push()
                    try:
                        ctx.solver.add(*[T(c) for c in p.conds])
                        ctx.solver.add(*[T(f) for f in p.facts])
                        for s in b_lengths(ctx): ctx.solver.add(s)
                        if ctx.solver.check() != z3.sat: break
                        m = ctx.solver.model()
                        for f in random_facts(rng, ctx, args):
                            ctx.solver.push()
                            ctx.solver.add(f)
                            if ctx.solver.check() == z3.sat: m = ctx.solver.model()
                            else: ctx.solver.pop()
                        ctx.TIMEOUT = 4000
                        apps = trusted_apps(list(ctx.solver.assertions()) + terms_of(p.value))
                        exact = False
                        for _ in range(20):
                            fs, pins = corrections(apps, m)
                            if not fs:
                                exact = True
                                break
                            ctx.solver.add(*fs)
                            if ctx.solver.check(*pins) != z3.sat and ctx.solver.check() != z3.sat: break
                            m = ctx.solver.model()
                        if not exact:
                            out['inexact'] += 1
                            continue
                        try: r, why = compare(g, side, fn, p, m, args, kwargs)
                        except V.CannotReify as e: r, why = 'open', str(e)
                        if r == 'differs' and ctx.lazy and not src.startswith('idiom:'):
                            # a model of the quantifier-free facts only?
                            ctx.solver.add(*ctx.lazy)
                            if ctx.solver.check() != z3.sat:
                                out['inexact'] += 1
                                continue
                            m = ctx.solver.model()
                            if corrections(apps, m)[0]:
                                out['inexact'] += 1
                                continue
                            r, why = compare(g, side, fn, p, m, args, kwargs)
                        if r == 'differs' and p.extra: r = 'loop differs'
                        out[r] += 1
                        if why and len(out['why']) < 4: out['why'].append('%s %s: %s' % (side, r, why[:600]))
                    finally:
                        while ctx.solver.num_scopes() > 0: ctx.solver.pop()
        except Unsupported as e: out['why'].append('%s unsupported: %s' % (side, str(e)[:100]))
        except Exception as e: out['why'].append('%s %s: %s' % (side, type(e).__name__, str(e)[:200]))
    return out


def terms_of(v, depth=0):
    """the z3 terms in a value"""
    if isinstance(v, z3.ExprRef): return [v]
    if depth > 8: return []
    if isinstance(v, dict): return [t for x in v.values() for t in terms_of(x, depth + 1)]
    if isinstance(v, (list, tuple)): return [t for x in v for t in terms_of(x, depth + 1)]
    if isinstance(v, (Sym,) + HEAP) or type(v).__name__ in ('Seq', 'GU', 'FMap'):
        names = [n for c in type(v).__mro__ for n in getattr(c, '__slots__', ())] + list(getattr(v, '__dict__', ()))
        return [t for n in names if hasattr(v, n) for t in terms_of(getattr(v, n), depth + 1)]
    return []


def b_lengths(ctx):
    """short lists"""
    seen = {}

    def walk(e):
        if e.get_id() in seen: return
        seen[e.get_id()] = e
        for c in e.children(): walk(c)
    for a in ctx.solver.assertions(): walk(a)
    return [e <= 4 for e in seen.values() if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort() and e.decl().name().startswith('n!')]


def interpreter(pids):
    srcs = ['property:' + p for p in pids] or ['property:' + p for p in sorted(lib.PROPERTIES)] + ['contract:' + c.name for c in lib.CONTRACTS.values()]
    return run(srcs)


def run(srcs):
    total = {}
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as pool:
        fs = [pool.submit(goal_item, s, k, '%s %d' % (s, k)) for s in srcs for k in range(len(goals_of(s)))]
        for f in fs:
            try: r = f.result()
            except Exception as e: print('worker', e); continue
            if r is None: continue
            for k, v in r.items():
                if isinstance(v, int): total[k] = total.get(k, 0) + v
            if r['differs'] or r['loop differs'] or not r['same']:
                print(r['goal'], {k: v for k, v in r.items() if isinstance(v, int)})
                for w in r['why']: print('    ' + w)
                sys.stdout.flush()
    print(total)
    return 1 if total.get('differs') else 0


def texts(n=8):
    """every text over a small alphabet"""
    count = 0
    for k in range(n + 1):
        for cs in itertools.product('[]%a', repeat=k):
            s = ''.join(cs)
            count += 1
            cuts = list(all_cuts(s))
            assert len(cuts) == 1, (s, cuts)
            lits, bodies, tail = cuts[0]
            found = re.findall(r'\[[^\]]+\]', s, re.UNICODE)
            assert found == ['[%s]' % b for b in bodies], (s, found, bodies)
            t = s.replace('%', '%%')
            assert re.findall(r'\[[^\]]+\]', t, re.UNICODE) == ['[%s]' % b.replace('%', '%%') for b in bodies]
            assert [m.group() for m in re.finditer(r'\[[^\]]+\]', t, re.UNICODE)] == re.findall(r'\[[^\]]+\]', t, re.UNICODE)
            called = []
            replaced = re.sub(r'\[[^\]]+\]', lambda m: called.append(m[0]) or '%s', t)
            assert called == re.findall(r'\[[^\]]+\]', t, re.UNICODE) and replaced == re.sub(r'\[[^\]]+\]', '%s', t)
            A, S = '', t
            for l, b in zip(lits, bodies):
                d = '[%s]' % b.replace('%', '%%')
                (A0, S0), A = (A, S), A + l.replace('%', '%%') + '%s'
                S = S0[len(l.replace('%', '%%')) + len(d):]
                assert (A0 + S0).replace(d, '%s', 1) == A + S, (s, A0, S0)
            assert replaced == A + S, s
            assert (A + S) % tuple('<%d>' % i for i in range(len(bodies))) == ''.join('%s<%d>' % (l, i) for i, l in enumerate(lits)) + tail, s
    print('%d texts' % count)
    return 0


def is_open(s): return all(s[i + 1:i + 2] == ']' for i, c in enumerate(s) if c == '[')


def closed_tail(s): return all(s[i + 1:i + 2] == ']' or ']' not in s[i:] for i, c in enumerate(s) if c == '[')


def all_cuts(s):
    """every way to write s as L V L V ... tail by the definition in contracts/lemmas.py"""
    if closed_tail(s): yield [], [], s
    for i in range(len(s)):
        if s[i] == '[' and is_open(s[:i]):
            for j in range(i + 2, len(s)):
                if s[j] == ']' and ']' not in s[i + 1:j]:
                    for ls, bs, t in all_cuts(s[j + 1:]): yield [s[:i]] + ls, [s[i + 1:j]] + bs, t


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    if sys.argv[1:2] == ['texts']: sys.exit(texts())
    if sys.argv[1:2] == ['idioms']:
        import idioms, types
        names = sys.argv[2:] or [k for k, f in vars(idioms).items() if isinstance(f, types.FunctionType)]
        sys.exit(run(['idiom:' + k for k in names]) + sound(names))
    sys.exit(interpreter(sys.argv[2:]))
