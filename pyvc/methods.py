"""Models of Python built-ins and of the methods of built-in types, on symbolic operands (trusted)."""
import ast
import builtins
import re
import types
import random as _random
import z3

from .values import *
from .core import *
from .core import _counter

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
RANGE_UNROLL = 2


def _I():
    from . import interp
    return interp


def native_or(f):
    def g(handler):
        def h(I, args, kwargs):
            args = tuple(I.simp(I.resolve(a)) if isinstance(a, (SUnion, SBool, SInt, SStr, SRec)) else a for a in args)
            if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
                return I.native(f, args, kwargs)
            return handler(I, args, kwargs)
        return h
    return g


@native_or(len)
def b_len(I, args, kwargs):
    (o,) = args
    if isinstance(o, (HList, STuple)) or type(o) is tuple:
        q = I.as_seq(o)
        if len(q.segs) == 1:
            cs = char_set(I, q.segs[0])
            if cs is not None: return I.simp(SInt(z3.Sum([z3.IntVal(0)] + [count_term(I, cs[0], c) for c in sorted(cs[1])])))
        return I.simp(SInt(I.seq_len(q)))
    if isinstance(o, SStr): return SInt(z3.Length(o.t))
    if isinstance(o, STable) and len({len(x) for x in o.table}) == 1: return len(o.table[0])
    if isinstance(o, SSet):
        return SInt(card(I, o.t))
    if isinstance(o, HDict) and o.is_fin():
        return I.simp(SInt(z3.Sum([z3.IntVal(0)] + [If(p, z3.IntVal(1), z3.IntVal(0)) for p, v in o.ent.values()])))
    if isinstance(o, HObj):
        m = I.class_attr(o.cls, '__len__')
        if m is not None: return I.call(m, (o,))
    if isinstance(o, (SInt, SBool, SRec, HObj, HIter)): I.raise_(TypeError)
    raise Unsupported('len of %r' % (o,))


def card(I, t):
    """number of elements: non-negative, zero for the empty set only, monotone, strictly so for proper subsets"""
    M = _I()
    I.used_trusted.add('cardinality of finite sets is monotone and zero only for the empty set')
    k = M.CARD(t)
    I.ctx.assume(And(k >= 0, (k == 0) == (t == M.EMPTY)))
    for u in I.cards:
        if u.eq(t): continue
        I.ctx.assume(Implies(M.SUBSET(t, u), And(k <= M.CARD(u), Implies(k == M.CARD(u), t == u))))
        I.ctx.assume(Implies(M.SUBSET(u, t), And(M.CARD(u) <= k, Implies(k == M.CARD(u), t == u))))
    I.cards = I.cards[-6:] + [t]
    return k


def b_range(I, args, kwargs):
    args = [I.simp(I.resolve(a)) for a in args]
    if len(args) == 3: 
        if any(has_sym(a) for a in args): raise Unsupported('range with step')
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else args
    if not has_sym(lo) and not has_sym(hi):
        n = max(0, hi - lo)
        if n <= max(RANGE_UNROLL, I.unroll): return range(lo, hi)
        nt = z3.IntVal(n)
    else:
        d = lift(hi).t - lift(lo).t
        nt = z3.simplify(If(d > 0, d, z3.IntVal(0)))
    v = z3.Int('i!%d' % next(_counter))
    return STuple(Seq([FMap(v, nt, TRUE, SInt(z3.simplify(v + lift(lo).t)))]))


def unaligned(I, v): return tuple((o, False) for o, aligned in sources(I.resolve(v)))


def iterator(I, kind, given, run, src=None, deps=None):
    """the iterator a built-in makes of the given iterables"""
    given = [I.iterable(a) for a in given]
    if src is None: src = tuple(x for a in given for x in sources(a))
    inner = [a for a in given if isinstance(a, HIter)] if kind is not zip else []
    return I.ctx.reg(HIter(kind, lambda whole: run(whole, *given), src, deps or (lambda: (given, ())) if deps or any(getattr(a, 'deps', None) for a in given) else None, inner))


def b_enumerate(I, args, kwargs):
    start = kwargs.get('start', args[1] if len(args) > 1 else 0)
    return iterator(I, enumerate, args[:1], lambda whole, a: numbered(I, I.as_seq(a, whole is True), start))


def numbered(I, q, start):
    out = []
    off = lift(start).t
    for s in q.segs:
        if isinstance(s, GU):
            if not is_true(T(s.g)): raise Unsupported('enumerate of a filtered sequence')
            out.append(GU(TRUE, (I.simp(SInt(off)), s.v)))
            off = z3.simplify(off + 1)
        else:
            if not is_true(T(s.guard)): raise Unsupported('enumerate of a filtered sequence')
            v = z3.Int('i!%d' % next(_counter))
            out.append(FMap(v, s.n, TRUE, (SInt(z3.simplify(off + v)), s.at(v)), s.facts_at(v)))
            off = off + s.n
    return Seq(out)


def b_zip(I, args, kwargs):
    if kwargs: raise Unsupported('zip(strict=)')
    return iterator(I, zip, args, lambda whole, *given: zipped(I, [I.as_seq(a, False) for a in given]))


def zipped(I, qs):
    cs = [q.concrete() for q in qs]
    if all(c is not None for c in cs): return Seq([GU(TRUE, x) for x in zip(*cs)])
    if all(len(q.segs) == 1 and isinstance(q.segs[0], FMap) and is_true(T(q.segs[0].guard)) for q in qs):
        v = z3.Int('i!%d' % next(_counter))
        n = qs[0].segs[0].n
        facts = []
        for q in qs[1:]:
            m = q.segs[0].n
            n = n if n.eq(m) else If(m < n, m, n)
        for q in qs: facts += q.segs[0].facts_at(v)
        return Seq([FMap(v, z3.simplify(n), TRUE, tuple(q.segs[0].at(v) for q in qs), facts)])
    # one of them has a known number of elements
    ns = [len(c) for c in cs if c is not None] + [z3.simplify(q.segs[0].n).as_long() for q in qs if single(q) and z3.is_int_value(z3.simplify(q.segs[0].n))]
    if not ns or not all(c is not None or single(q) for c, q in zip(cs, qs)) or min(ns) > 500: raise Unsupported('zip of sequences of different structure')
    out = []
    for j in range(min(ns)):
        there = []
        for c, q in zip(cs, qs):
            if c is None:
                g = z3.simplify(z3.IntVal(j) < q.segs[0].n)
                for f in q.segs[0].facts_at(z3.IntVal(j)): I.ctx.assume(Implies(g, f))
                if not is_true(g): there.append(g)
        out.append(GU(z3.simplify(And(*there)) if there else TRUE, tuple(c[j] if c is not None else q.segs[0].at(z3.IntVal(j)) for c, q in zip(cs, qs))))
    return Seq(out)


def single(q):
    return len(q.segs) == 1 and isinstance(q.segs[0], FMap) and is_true(T(q.segs[0].guard))


def b_isinstance(I, args, kwargs):
    o, cls = args
    o = I.resolve(o)
    classes = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(o, HObj): return any(issubclass(o.cls, c) for c in classes)
    t = None
    if isinstance(o, SStr): t = str
    elif isinstance(o, SInt): t = int
    elif isinstance(o, SBool): t = bool
    elif isinstance(o, SReal): t = float
    elif isinstance(o, HList): t = list
    elif isinstance(o, HDict): t = dict
    elif isinstance(o, HSet): t = set
    elif isinstance(o, SSet): t = frozenset
    elif isinstance(o, SView): raise Unsupported('isinstance of a view')
    elif isinstance(o, STuple): t = tuple
    elif isinstance(o, HIter): t = o.kind
    elif isinstance(o, SRec):
        o = I.resolve_null(o)
        if o is None: return isinstance(None, classes)
        return isinstance(o.rel.records[0], classes) if isinstance(o, SRec) else isinstance(o, classes)
    elif isinstance(o, VExc): t = o.cls
    elif isinstance(o, SOpaque): raise Unsupported('isinstance of opaque value')
    if t is not None: return any(issubclass(t, c) for c in classes)
    return isinstance(o, cls)


def b_hasattr(I, args, kwargs): return I.hasattr(args[0], args[1])


def b_getattr(I, args, kwargs):
    if len(args) == 3 and not I.hasattr(args[0], args[1]): return args[2]
    return I.getattr(args[0], args[1])


def b_setattr(I, args, kwargs): I.setattr(*args)


def b_delattr(I, args, kwargs): I.delattr(*args)


@native_or(int)
def b_int(I, args, kwargs):
    (v,) = args
    if isinstance(v, SInt): return v
    if isinstance(v, SBool): return SInt(If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, IntKey): return SInt(v.t)
    raise Unsupported('int() of %r' % (v,))


@native_or(str)
def b_str(I, args, kwargs):
    if not args: return ''
    (v,) = args
    if isinstance(v, SStr): return v
    if isinstance(v, SInt):
        I.used_trusted.add('str(int) is the decimal notation (uninterpreted)')
        return SStr(_I().INTSTR(v.t))
    if isinstance(v, HObj):
        m = I.class_attr(v.cls, '__str__')
        if m is not None and isinstance(m, types.FunctionType):
            r = I.call(m, (v,))
            if not isinstance(r, (str, SStr)): I.raise_(TypeError, '__str__ returned non-string')
            return r
    raise Unsupported('str() of %r' % (v,))


@native_or(divmod)
def b_divmod(I, args, kwargs):
    a, b = args
    return I.binop(ast.FloorDiv(), a, b), I.binop(ast.Mod(), a, b)


@native_or(abs)
def b_abs(I, args, kwargs):
    (v,) = args
    if isinstance(v, SInt): return SInt(If(v.t < 0, -v.t, v.t))
    raise Unsupported('abs')


@native_or(bool)
def b_bool(I, args, kwargs):
    if not args: return False
    t = I.truth(args[0])
    return I.boolean(t)


@native_or(hash)
def b_hash(I, args, kwargs):
    return SInt(hash_term(I, args[0]))


def hash_term(I, v):
    v = I.resolve(v)
    if not has_sym(v):
        if isinstance(v, (int, bool)) and not isinstance(v, float): return z3.IntVal(hash(v))
        if type(v) is tuple: pass
        elif is_record(v): v = lift(v)
        elif isinstance(v, str): v = lift(v)
        else:
            try: hash(v)
            except TypeError: I.raise_(TypeError, 'unhashable')
            return z3.Function('hash_const', z3.IntSort(), z3.IntSort())(z3.IntVal(id(v) % (1 << 60)))
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SStr): return z3.Function('hash_str', z3.StringSort(), z3.IntSort())(v.t)
    if isinstance(v, SRec): return z3.Function('hash_rec_' + v.rel.__name__, z3.IntSort(), z3.IntSort())(v.t)
    if isinstance(v, SOpaque): return z3.Function('hash_' + v.tag, v.t.sort(), z3.IntSort())(v.t)
    if type(v) is tuple:
        acc = z3.IntVal(len(v))
        for x in v: acc = _I().HASH2(acc, hash_term(I, x))
        return acc
    if isinstance(v, HObj):
        m = I.class_attr(v.cls, '__hash__')
        if m is None:
            I.raise_(TypeError, 'unhashable')
        if not isinstance(m, types.FunctionType):
            raise Unsupported('identity hash')
        r = I.resolve(I.call(m, (v,)))
        if isinstance(r, SInt): return r.t
        if isinstance(r, bool) or not isinstance(r, int): I.raise_(TypeError, '__hash__')
        return z3.IntVal(r)
    if isinstance(v, (HList, HDict, HSet)): I.raise_(TypeError, 'unhashable')
    raise Unsupported('hash of %r' % (v,))


def listed_out(q):
    """the segments, with those of a known small number of elements written out"""
    for s in q.segs:
        if isinstance(s, FMap) and z3.is_int_value(s.n) and s.n.as_long() <= 64 and not s.facts:
            for k in range(s.n.as_long()): yield GU(T(s.guard_at(z3.IntVal(k))), s.at(z3.IntVal(k)))
        else: yield s


def b_sum(I, args, kwargs):
    given = I.resolve(args[0])
    over = given.deps()[0] if isinstance(given, HIter) and given.deps is not None else [given]
    bag = any(isinstance(x, (set, frozenset)) for x in over)
    q = I.as_seq(given, anyhow='bag' if bag else False)
    if bag and not all(isinstance(s, GU) and isinstance(lift(I.resolve(s.v)), (SInt, SBool)) for s in q.segs): raise Unsupported('order of a set')
    acc = args[1] if len(args) > 1 else kwargs.get('start', 0)
    for s in listed_out(q):
        if isinstance(s, GU):
            if is_true(T(s.g)): acc = I.binop(ast.Add(), acc, s.v)
            else:
                v = lift(I.resolve(s.v))
                if isinstance(v, SBool): v = SInt(If(v.t, z3.IntVal(1), z3.IntVal(0)))
                if isinstance(v, SInt) and isinstance(lift(acc), SInt): acc = SInt(lift(acc).t + If(s.g, v.t, z3.IntVal(0)))
                elif isinstance(v, (SInt, SReal)) and isinstance(lift(acc), (SInt, SReal)):
                    # floats are added case by case, in order
                    if I.ctx.branch(s.g): acc = I.binop(ast.Add(), acc, s.v)
                else: raise Unsupported('sum')
        else:
            h = I.hooks.get('sum')
            if h is not None: acc = I.binop(ast.Add(), acc, h(I, s))
            else: raise Unsupported('sum over a symbolic sequence')
    return I.simp(acc) if isinstance(acc, Sym) else acc


def listed(I, v):
    """what an iterator holds, as a list"""
    if not isinstance(v, HIter): return v
    q = I.as_seq(v)
    I.finished(v)
    return I.ctx.reg(HList(q))


def b_minmax(f, op):
    def h(I, args, kwargs):
        vals = [I.simp(I.resolve(a)) for a in args]
        if len(vals) == 1: vals = args = (listed(I, vals[0]),)
        if len(vals) >= 2 and 'key' not in kwargs:
            if not any(has_sym(v) for v in vals): return I.native(f, tuple(vals), {})
            acc = lift(vals[0])
            for v in vals[1:]:
                v = lift(v)
                if not (isinstance(acc, SInt) and isinstance(v, SInt)): raise Unsupported('min/max')
                acc = SInt(If(op(v.t, acc.t), v.t, acc.t))
            return acc
        q = I.as_seq(args[0]).concrete() if len(args) == 1 else None
        if q is not None and not any(has_sym(v) for v in q) and 'key' not in kwargs: return I.native(f, (q,), kwargs)
        if q is not None and 'key' not in kwargs and q:
            return h(I, tuple(q) if len(q) > 1 else (q[0], q[0]), {})
        hk = I.hooks.get('max' if f is max else 'min')
        if hk is not None: return hk(I, args, kwargs)
        if q and set(kwargs) <= {'default', 'key'}: return best_listed(I, q, kwargs['key'], f is max)
        if len(args) == 1 and set(kwargs) <= {'default', 'key'}: return best_of(I, args[0], kwargs, f is max)
        raise Unsupported('min/max of a symbolic sequence')
    return h


def best_listed(I, items, key, largest):
    """max/min of the listed values under a key: a later one only when it is better"""
    best, kb = items[0], I.call(key, (items[0],))
    for x in items[1:]:
        k = I.call(key, (x,))
        if I.test(I.compare(ast.Gt() if largest else ast.Lt(), k, kb)): best, kb = x, k
    return best


def best_of(I, arg, kwargs, largest):
    """max/min of a sequence: the first element no other is better than"""
    ctx = I.ctx
    q = I.as_seq(arg)
    segs = [x for x in q.segs if not (isinstance(x, GU) and is_false(T(x.g)))]
    if len(segs) != 1 or not isinstance(segs[0], FMap) or ctx.ivars: raise Unsupported('min/max of a composite sequence')
    s = segs[0]
    some = I.nonempty(Seq([s]))
    if not ctx.branch(some):
        if 'default' in kwargs: return kwargs['default']
        I.raise_(ValueError)
    i = z3.Int('i!%d' % next(_counter))
    if kwargs.get('key') is not None:
        ctx.ivars.append(i)
        try: val = I.merged(lambda: I.call(kwargs['key'], (s.at(i),)))
        finally: ctx.ivars.pop()
    else: val = s.at(i)
    val = lift(val)
    if type(val) is tuple: return best_tuple(I, s, i, val, largest, kwargs.get('key') is not None)
    if not isinstance(val, (SInt, SReal)): raise Unsupported('min/max of %s' % type(val).__name__)
    w = ctx.fresh(z3.IntSort(), 'best')
    e, g = val.t, s.guard_at(i)
    at = lambda t: z3.substitute(T(t), (i, w))
    best = ctx.fresh(e.sort(), 'best')
    ctx.assume(And(w >= 0, w < s.n, at(g), best == z3.substitute(e, (i, w))))
    for f in s.facts_at(w): ctx.assume(f)
    ctx.assume(Not(ctx.exists(i, s.n, And(g, e > best if largest else e < best), s.facts_at(i))))
    ctx.witness(w, i, s.n, And(g, e == best))
    if kwargs.get('key') is not None: return s.at(w)
    return type(val)(best)


def best_tuple(I, s, i, val, largest, keyed):
    """best_of for a tuple of keys, compared lexicographically"""
    ctx = I.ctx
    es = []
    for x in val:
        x = lift(I.resolve(x))
        if isinstance(x, SBool): x = SInt(If(x.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, (SInt, SReal)): es.append(x.t)
        elif isinstance(x, HList):
            I.used_trusted.add('list < is a strict total order')
            es.append(_I().LISTRANK(I.tok(x)))
        else: raise Unsupported('min/max of tuples')
    w = ctx.fresh(z3.IntSort(), 'best')
    g = s.guard_at(i)
    bests = [ctx.fresh(e.sort(), 'best') for e in es]
    better, same = FALSE, TRUE
    for e, b in zip(es, bests):
        better = Or(better, And(same, e > b if largest else e < b))
        same = And(same, e == b)
    ctx.assume(And(w >= 0, w < s.n, z3.substitute(T(g), (i, w)), *[b == z3.substitute(e, (i, w)) for e, b in zip(es, bests)]))
    for f in s.facts_at(w): ctx.assume(f)
    ctx.assume(Not(ctx.exists(i, s.n, And(g, better), s.facts_at(i))))
    ctx.witness(w, i, s.n, And(g, same))
    if keyed: return s.at(w)
    if any(not isinstance(lift(x), (SInt, SReal)) for x in val): raise Unsupported('min/max of tuples')
    return tuple(type(lift(x))(b) for x, b in zip(val, bests))


def b_any(I, args, kwargs):
    out = []
    for s in I.as_seq(args[0], anyhow=True).segs:
        if isinstance(s, GU): out.append(And(s.g, _tt(I, s.v)))
        else:
            v = z3.Int('w!%d' % next(_counter))
            out.append(I.ctx.exists(v, s.n, And(s.guard_at(v), z3.substitute(T(_tt(I, s.elem)), (s.var, v))), s.facts_at(v)))
    return I.boolean(Or(*out))


def b_all(I, args, kwargs):
    out = []
    for s in I.as_seq(args[0], anyhow=True).segs:
        if isinstance(s, GU): out.append(Implies(s.g, _tt(I, s.v)))
        else:
            v = z3.Int('w!%d' % next(_counter))
            out.append(Not(I.ctx.exists(v, s.n, And(s.guard_at(v), Not(z3.substitute(T(_tt(I, s.elem)), (s.var, v)))), s.facts_at(v))))
    return I.boolean(And(*out))


def _tt(I, v):
    if isinstance(v, SUnion): return Or(*[And(g, _tt(I, x)) for g, x in v.alts])
    return T(I.truth(v))


def b_tuple(I, args, kwargs):
    if not args: return ()
    q = I.as_seq(args[0], True)
    c = q.concrete()
    return tuple(c) if c is not None else STuple(Seq(q.segs))


def b_list(I, args, kwargs):
    if not args: return I.new_list()
    return I.ctx.reg(HList(Seq(I.as_seq(args[0], True).segs)))


def b_set(I, args, kwargs):
    if not args: return I.ctx.reg(HSet(Seq([])))
    a = I.resolve(args[0])
    if isinstance(a, SSet): return a
    q = I.as_seq(a, True, True)
    c = q.concrete()
    if c is not None and not any(has_sym(v) for v in c): return set(c)
    return I.ctx.reg(HSet(q))


def b_frozenset(I, args, kwargs):
    if not args: return frozenset()
    a = I.resolve(args[0])
    if isinstance(a, SSet): return a
    c = I.as_seq(a, True, True).concrete()
    if c is not None and not any(has_sym(v) for v in c): return frozenset(c)
    raise Unsupported('frozenset')


def b_dict(I, args, kwargs):
    d = I.ctx.reg(HDict())
    if args:
        a = I.resolve(args[0])
        if isinstance(a, HDict):
            d.ent, d.base, d.log, d.keysort = Ent(a.ent), a.base, list(a.log), a.keysort
        elif isinstance(a, dict): d.ent = Ent({k: (TRUE, v) for k, v in a.items()})
        else: I.dict_fill(d, I.as_seq(a, True))
    for k, v in kwargs.items(): d.ent[k] = (TRUE, v)
    return d


def b_reversed(I, args, kwargs):
    a = I.resolve(args[0])
    if isinstance(a, (HIter, HSet, SSet, set, frozenset)): I.raise_(TypeError, 'not reversible')
    return iterator(I, reversed, (a,), lambda whole, a: backwards(I.as_seq(a)), unaligned(I, a))


def backwards(q):
    out = []
    for s in reversed(q.segs):
        if isinstance(s, GU): out.append(s)
        else:
            v = z3.Int('i!%d' % next(_counter))
            idx = s.n - 1 - v
            out.append(FMap(v, s.n, s.guard_at(idx), s.at(idx), s.facts_at(idx)))
    return Seq(out)


def b_sorted(I, args, kwargs):
    a = I.resolve(args[0])
    c = I.as_seq(a, True, isinstance(a, (set, frozenset)) and kwargs.get('key') is None).concrete()
    if c is None or set(kwargs) - {'key', 'reverse'} or len(args) != 1: raise Unsupported('sorted')
    key, reverse = kwargs.get('key'), I.resolve(kwargs.get('reverse', False))
    keys = [I.simp(I.resolve(I.call(key, (v,)))) for v in c] if key is not None else list(c)
    if has_sym(reverse) or any(has_sym(k) for k in keys): raise Unsupported('sorted')
    order = I.native(sorted, (list(range(len(c))),), {'key': lambda k: keys[k], 'reverse': reverse})
    return I.new_list([c[k] for k in order])


def b_map(I, args, kwargs):
    if len(args) != 2: raise Unsupported('map over several iterables')
    f, seq = args
    return iterator(I, map, (seq,), lambda whole, a: map_seq(I, lambda v: I.call(f, (v,)), I.as_seq(a)), unaligned(I, seq), lambda: ((f, seq), ()))


def map_seq(I, f, q):
    out = []
    env = _I().Env(set(), {})
    for s in q.segs:
        if isinstance(s, GU):
            I.comp_unit(lambda v: env.vars.__setitem__('v', v) or True, lambda e: f(e.vars['v']), env, s, out, [False])
        else:
            out.append(I.comp_fmap(lambda v: env.vars.__setitem__('v', v) or True, lambda e: f(e.vars['v']), env, s, [False]))
    return Seq(out)


def b_filter(I, args, kwargs):
    f, seq = args
    return iterator(I, filter, (seq,), lambda whole, a: filtered(I, f, I.as_seq(a)), unaligned(I, seq), lambda: ((f, seq), ()))


def filtered(I, f, q):
    out, kept = [], [True]
    env = _I().Env(set(), {})

    def one(v):
        env.vars['v'] = v
        t = I.truth(v if f is None else I.call(f, (v,)))
        if isinstance(t, bool): return t
        I.ctx.add(t)
        return True
    for s in q.segs:
        if isinstance(s, GU): I.comp_unit(one, lambda e: e.vars['v'], env, s, out, kept)
        else: out.append(I.comp_fmap(one, lambda e: e.vars['v'], env, s, kept))
    return Seq(out)


def b_type(I, args, kwargs):
    if len(args) != 1: raise Unsupported('type()')
    o = I.resolve(args[0])
    if isinstance(o, HObj): return o.cls
    if isinstance(o, HIter): return o.kind
    if isinstance(o, SView): raise Unsupported('type of a view')
    for c, t in ((SStr, str), (SInt, int), (SBool, bool), (HList, list), (HDict, dict), (STuple, tuple), (HSet, set)):
        if isinstance(o, c): return t
    if isinstance(o, Sym): raise Unsupported('type of symbolic value')
    return type(o)


def b_iter(I, args, kwargs):
    if len(args) != 1: raise Unsupported('iter with a sentinel')
    a = I.resolve(args[0])
    if isinstance(a, HIter): return a
    return iterator(I, type(iter([])), (a,), lambda whole, a: I.as_seq(a))


def b_choice(I, args, kwargs):
    """random.choice: some element (an arbitrary position of a non-empty sequence)"""
    I.used_trusted.add('random.choice returns an element of a non-empty sequence')
    if isinstance(I.resolve(args[0]), (HIter, HSet)): I.raise_(TypeError, 'no len() or subscript')
    q = I.as_seq(args[0])
    t = I.truth(args[0])
    if not (t if isinstance(t, bool) else I.ctx.branch(t)): I.raise_(IndexError)
    alts = []
    for s in q.segs:
        if isinstance(s, GU): alts.append((s.g, s.v))
        else:
            k = I.ctx.fresh(z3.IntSort(), 'choice')
            I.ctx.point(k)
            alts.append((And(k >= 0, k < s.n, s.guard_at(k), *s.facts_at(k)), s.at(k)))
    j = I.ctx.choose([g for g, v in alts])
    return alts[j][1]


def b_next(I, args, kwargs):
    it = I.resolve(args[0])
    if not isinstance(it, HIter):
        if hasattr(it, '__next__'): raise Unsupported('next of %r' % (it,))
        I.raise_(TypeError, 'not an iterator')
    plain = it.deps is None and not it.inner
    q = I.drain(it)
    segs = [s for s in q.segs if not (isinstance(s, GU) and is_false(T(s.g)))]

    def rest(q):
        # the steps that are left read the same lists
        if plain:
            it.saw = it.saw if it.seq is not None else [(o, I.ctx.state(o)) for o, aligned in it.src]
            it.state, it.seq = 'new', q
    if segs and isinstance(segs[0], GU) and is_true(T(segs[0].g)):
        rest(Seq(segs[1:]))
        return segs[0].v
    if plain and len(segs) == 1 and isinstance(segs[0], FMap) and is_true(T(segs[0].guard)) and I.ctx.branch(segs[0].n > 0):
        for f in segs[0].facts_at(z3.IntVal(0)): I.ctx.assume(f)
        rest(I.slice_seq(Seq(segs), 1, None))
        return segs[0].at(z3.IntVal(0))
    # first element satisfying the filter
    for k, s in enumerate(segs):
        if isinstance(s, GU):
            if I.ctx.branch(s.g): return s.v
        else:
            v = z3.Int('w!%d' % next(_counter))
            c = And(v >= 0, v < s.n, s.guard_at(v), *s.facts_at(v))
            if I.ctx.branch(I.ctx.exists(v, s.n, s.guard_at(v), s.facts_at(v))):
                e = I.ctx.fresh(z3.IntSort(), 'first')
                I.ctx.assume(z3.substitute(c, (v, e)))
                I.ctx.witness(e, v, s.n, s.guard_at(v))
                return s.at(e)
    I.finished(it)
    if len(args) > 1: return args[1]
    I.raise_(StopIteration)


BUILTINS = {len: b_len, range: b_range, enumerate: b_enumerate, zip: b_zip, isinstance: b_isinstance, hasattr: b_hasattr,
            getattr: b_getattr, setattr: b_setattr, delattr: b_delattr, int: b_int, str: b_str, abs: b_abs, divmod: b_divmod, bool: b_bool,
            hash: b_hash, sum: b_sum, max: b_minmax(max, lambda a, b: a > b), min: b_minmax(min, lambda a, b: a < b),
            any: b_any, all: b_all, tuple: b_tuple, list: b_list, set: b_set, frozenset: b_frozenset, dict: b_dict,
            reversed: b_reversed, sorted: b_sorted, map: b_map, filter: b_filter, type: b_type, iter: b_iter, next: b_next,
            _random.choice: b_choice, _random.Random.choice: lambda I, args, kwargs: b_choice(I, args[-1:], kwargs)}


# ---------------------------------------------------------------- methods

def call_method(I, o, name, args, kwargs):
    o = I.resolve(o)
    if isinstance(o, (str, SStr)): return str_method(I, o, name, args, kwargs)
    if isinstance(o, HList): return list_method(I, o, name, args, kwargs)
    if isinstance(o, re.Pattern):
        for h in I.regex_hooks:
            v = h(I, o, name, tuple(I.simp(I.resolve(a)) for a in args), kwargs)
            if v is not None: return v
    if isinstance(o, (HDict, dict)): return dict_method(I, o, name, args, kwargs)
    if isinstance(o, HItems):
        if name == 'items' and not args: return STuple(o.seq)
        raise Unsupported('%s of a mapping of unknown keys' % name)
    if isinstance(o, SView): raise Unsupported('%s of a view' % name)
    if isinstance(o, (STuple, tuple)):
        if name in ('index', 'count'): raise Unsupported('tuple.%s' % name)
        I.raise_(AttributeError, name)
    if isinstance(o, (SSet, frozenset, set)): return set_method(I, o, name, args, kwargs)
    if isinstance(o, HSet):
        if name == 'add':
            I.writable(o)
            o.seq = Seq(o.seq.segs + [GU(TRUE, args[0])])
            return None
        raise Unsupported('set.%s' % name)
    if isinstance(o, list):
        raise Unsupported('method %s of a module-level list' % name)
    raise Unsupported('method %s of %r' % (name, o))


def seq_at(t, i):
    return z3.SeqRef(z3.Z3_mk_seq_at(t.ctx_ref(), t.as_ast(), i.as_ast()), t.ctx)


def char_set(I, s):
    """s = [c for c in text if c in SET] over the characters of a string: (text, SET), else None"""
    if not (isinstance(s, FMap) and isinstance(s.origin, SStr) and isinstance(s.elem, SStr)): return None
    t = z3.simplify(s.origin.t)
    ch = seq_at(t, s.var)
    if not z3.simplify(s.elem.t).eq(ch) or not z3.simplify(s.n).eq(z3.simplify(z3.Length(t))): return None
    x = z3.Const('ch!%d' % next(_counter), z3.StringSort())
    g = z3.simplify(z3.substitute(z3.simplify(T(s.guard)), (ch, x)))
    consts, todo, free = set(), [g], False
    while todo:
        e = todo.pop()
        if z3.is_string_value(e): consts.add(unescape(e.as_string()))
        elif e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(x): return None
        elif e.num_args(): todo.extend(e.children())
    keep = frozenset(c for c in consts if len(c) == 1 and is_true(z3.simplify(z3.substitute(g, (x, sv(c))))))
    sol = z3.Solver()
    sol.set('timeout', 5000)
    sol.add(z3.Length(x) == 1, g != Or(*[x == sv(c) for c in sorted(keep)]))
    return (t, keep) if sol.check() == z3.unsat else None


def is_app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def count_term(I, t, c):
    k = z3.Function('py_count', z3.StringSort(), z3.StringSort(), z3.IntSort())(t, sv(c))
    I.ctx.assume(k >= 0)
    return k


def str_join(I, sep, arg):
    q = I.as_seq(arg, True)
    segs = [s for s in q.segs if not (isinstance(s, GU) and is_false(T(s.g)))]
    if sep == '' and not segs: return ''
    if sep == '' and len(segs) == 1 and isinstance(segs[0], FMap):
        cs = char_set(I, segs[0])
        if cs is not None:
            t, keep = cs
            f = z3.Function('py_keep_' + ''.join('%x.' % ord(c) for c in sorted(keep)), z3.StringSort(), z3.StringSort())
            I.used_trusted.add('the characters of a text that lie in a given set, joined (uninterpreted; as many as the set\'s characters occur)')
            I.ctx.assume(z3.Length(f(t)) == z3.Sum([z3.IntVal(0)] + [count_term(I, t, c) for c in sorted(keep)]))
            return SStr(f(t))
    c = q.concrete()
    if c is not None and all(isinstance(lift(x), SStr) for x in c):
        parts = []
        for k, x in enumerate(c):
            if k and sep != '': parts.append(lift(sep).t)
            parts.append(lift(x).t)
        return I.simp(SStr(parts[0] if len(parts) == 1 else z3.Concat(*parts))) if parts else ''
    h = I.hooks.get('join')
    if h is not None:
        r = h(I, sep, arg)
        if r is not NotImplemented: return r
    raise Unsupported('str.join')


def str_method(I, o, name, args, kwargs):
    args = tuple(I.simp(I.resolve(a)) for a in args)
    if not has_sym(o) and not any(has_sym(a) for a in args):
        return I.native(getattr(o, name), args, kwargs)
    h = I.str_hooks.get(name)
    if h is not None:
        r = h(I, o, args, kwargs)
        if r is not NotImplemented: return r
    t = lift(o).t
    M = _I()
    if name in ('upper', 'lower') and not args:
        f = M.UPPER if name == 'upper' else M.LOWER
        I.used_trusted.add('str.%s (uninterpreted, keeps the empty text)' % name)
        t = z3.simplify(t)
        if is_app(t, M.LOWER if name == 'lower' else M.UPPER): return SStr(t)
        I.ctx.assume((t == sv('')) == (f(t) == sv('')))
        return SStr(f(t))
    if name == 'strip' and not args:
        I.used_trusted.add('str.strip (uninterpreted; commutes with lower, once is enough)')
        t = z3.simplify(t)
        if is_app(t, M.STRIP): return SStr(t)
        if is_app(t, M.LOWER):
            if is_app(t.arg(0), M.STRIP): return SStr(t)
            x = M.STRIP(t.arg(0))
            I.ctx.assume((x == sv('')) == (M.LOWER(x) == sv('')))
            return SStr(M.LOWER(x))
        return SStr(M.STRIP(t))
    if name == 'startswith' and len(args) == 1 and isinstance(lift(args[0]), SStr): return I.boolean(z3.PrefixOf(lift(args[0]).t, t))
    if name == 'endswith' and len(args) == 1 and isinstance(lift(args[0]), SStr): return I.boolean(z3.SuffixOf(lift(args[0]).t, t))
    if name == 'isupper' and not args: return I.boolean(z3.Function('py_isupper', z3.StringSort(), z3.BoolSort())(t))
    if name == 'islower' and not args: return I.boolean(z3.Function('py_islower', z3.StringSort(), z3.BoolSort())(t))
    if name == 'split' and len(args) == 1 and isinstance(args[0], str) and args[0]:
        S = z3.StringSort()
        cnt = z3.Function('py_split_n', S, S, z3.IntSort())(t, sv(args[0]))
        n = If(cnt < 1, z3.IntVal(1), cnt)
        v = z3.Int('i!%d' % next(_counter))
        at = z3.Function('py_split_at', S, S, z3.IntSort(), S)
        tail = FMap(v, z3.simplify(n - 1), TRUE, SStr(at(t, sv(args[0]), v + 1)))
        I.used_trusted.add('str.split(sep) yields at least one part (parts uninterpreted)')
        return I.ctx.reg(HList(Seq([GU(TRUE, SStr(at(t, sv(args[0]), z3.IntVal(0)))), tail])))
    if name == 'replace' and len(args) == 2 and all(isinstance(x, str) for x in args):
        I.used_trusted.add('str.replace (uninterpreted; putting one of a doubled character for two undoes doubling it)')
        a, b = args
        if is_app(t, M.REPLACE_ALL) and len(b) == 1 and a == b + b and t.arg(1).eq(sv(b)) and t.arg(2).eq(sv(a)): return SStr(t.arg(0))
        return SStr(M.REPLACE_ALL(t, sv(a), sv(b)))
    if name == 'replace' and len(args) == 3 and args[2] == 1 and type(args[2]) is int and all(isinstance(lift(x), SStr) for x in args[:2]):
        I.used_trusted.add('str.replace of the first occurrence (what the lemmas say)')
        return SStr(M.REPLACE_FIRST(t, lift(args[0]).t, lift(args[1]).t))
    if name == 'count' and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
        I.used_trusted.add('str.count (uninterpreted)')
        return SInt(count_term(I, t, args[0]))
    if name == 'join' and len(args) == 1:
        return str_join(I, o, args[0])
    if name == 'format': raise Unsupported('str.format')
    if not hasattr('', name): I.raise_(AttributeError, name)
    raise Unsupported('str.%s' % name)


def list_method(I, o, name, args, kwargs):
    if name == 'append':
        I.writable(o)
        o.seq = Seq(o.seq.segs + [GU(TRUE, I.narrow(args[0]))])
        return None
    if name == 'extend':
        I.writable(o)
        q = I.as_seq(args[0])
        o.seq = Seq(o.seq.segs + q.segs)
        I.finished(args[0])
        return None
    if name == 'copy': return I.ctx.reg(HList(Seq(o.seq.segs)))
    if name == 'insert':
        I.writable(o)
        c = o.seq.concrete()
        k = I.simp(args[0])
        if k == 0:
            o.seq = Seq([GU(TRUE, args[1])] + o.seq.segs)
            return None
        if c is not None and isinstance(k, int):
            c.insert(k, args[1])
            o.seq = Seq([GU(TRUE, x) for x in c])
            return None
        raise Unsupported('list.insert')
    if name in ('remove', 'index') and len(args) == 1 and o.seq.concrete() is not None:
        c = o.seq.concrete()
        for k, x in enumerate(c):
            if I.test(I.equals(x, args[0], False)):
                if name == 'index': return k
                I.writable(o)
                o.seq = Seq([GU(TRUE, y) for j, y in enumerate(c) if j != k])
                return None
        I.raise_(ValueError)
    if name == 'clear':
        I.writable(o)
        o.seq = Seq([])
        return None
    if name == 'sort' and not args:
        q = b_sorted(I, (o,), kwargs).seq
        I.writable(o)
        o.seq = q
        return None
    if name == 'reverse' and not args:
        I.writable(o)
        o.seq = backwards(o.seq)
        return None
    if name == 'pop':
        c = o.seq.concrete()
        if c is not None:
            I.writable(o)
            k = I.simp(args[0]) if args else -1
            if not c: I.raise_(IndexError)
            v = c[k]
            del c[k]
            o.seq = Seq([GU(TRUE, x) for x in c])
            return v
    if not hasattr([], name): I.raise_(AttributeError, name)
    raise Unsupported('list.%s' % name)


def dict_method(I, o, name, args, kwargs):
    args = tuple(I.simp(I.resolve(a)) if not isinstance(a, HEAP) else a for a in args)
    if name == 'get':
        k = args[0]
        default = args[1] if len(args) > 1 else None
        if isinstance(o, dict):
            if not has_sym(k):
                try: return o.get(k, default)
                except Exception as e: raise SymRaise(VExc(type(e)))
            has = I.contains(o, k)
            if not I.test(has): return default
            return I.getitem(o, k)
        has = I.dict_has(o, k)
        if not I.ctx.branch(has): return default
        return I.dict_get(o, k)
    if name == 'items':
        if isinstance(o, dict): return o.items()

        def items(anyhow):
            if not o.is_fin(): raise Unsupported('items of a symbolic dict')
            return Seq([GU(p, (k, v)) for k, (p, v) in I.entries(o, anyhow)])
        return SView(name, o, items)
    if name == 'keys':
        if isinstance(o, dict): return o.keys()
        return SView(name, o, lambda anyhow: I.dict_keys(o, anyhow))
    if name == 'values':
        if isinstance(o, dict): return o.values()
        return SView(name, o, lambda anyhow: Seq([GU(p, v) for k, (p, v) in I.entries(o, anyhow)]) if o.is_fin() else I.dict_values(o))
    if isinstance(o, dict): raise Unsupported('method %s of a module-level dict' % name)
    if name == 'update':
        if args: I.dict_update(o, args[0])
        for k, v in kwargs.items(): I.setitem(o, k, v)
        return None
    if name == 'copy':
        return I.ctx.reg(HDict(o.ent, o.base, o.log, o.keysort))
    if name == 'setdefault':
        k, v = args[0], args[1] if len(args) > 1 else None
        if not I.ctx.branch(I.dict_has(o, k)):
            I.setitem(o, k, v)
            return v
        return I.dict_get(o, k)
    if name == 'pop':
        k = args[0]
        if not I.ctx.branch(I.dict_has(o, k)):
            if len(args) > 1: return args[1]
            I.raise_(KeyError)
        v = I.dict_get(o, k)
        I.delitem(o, k)
        return v
    if name == 'clear':
        I.writable(o)
        o.ent, o.base, o.log = Ent(), None, []
        return None
    if not hasattr({}, name): I.raise_(AttributeError, name)
    raise Unsupported('dict.%s' % name)


def set_method(I, o, name, args, kwargs):
    M = _I()
    args = [I.resolve(a) for a in args]
    if len(args) == 1 and isinstance(args[0], (SSet, set, frozenset)):
        f = {'issubset': M.SUBSET, 'issuperset': lambda a, b: M.SUBSET(b, a), 'isdisjoint': lambda a, b: M.INTER(a, b) == M.EMPTY,
             'intersection': M.INTER, 'union': M.UNION, 'difference': M.DIFF}.get(name)
        if f is not None:
            x = f(I.set_term(o), I.set_term(args[0]))
            return I.boolean(x) if z3.is_bool(x) else SSet(x)
    if name == 'copy' and not args: return o
    raise Unsupported('set.%s' % name)
