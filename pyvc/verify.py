"""Goals, contracts and the driver that turns them into obligations."""
import json
import os
import time
import traceback
import types

import z3

from .values import *
from .core import *
from .core import _counter
from .interp import Interp, BuiltinMethod, StarSeq
from . import loops as L
from . import interp as _interp

import utg as _utg
_LIB = os.path.dirname(os.path.abspath(_utg.__file__))
ROOTS = (os.path.realpath(_LIB) + '/', _LIB + '/', os.path.realpath(os.path.join(os.path.dirname(__file__), '..', 'spec')) + '/')


class Builder(object):
    """creates symbolic arguments; preconditions are added to the solver permanently"""
    def __init__(self, ctx, interp):
        self.ctx, self.I = ctx, interp

    def require(self, fact):
        self.ctx.solver.add(T(fact))

    def name(self, n): return '%s!%d' % (n, next(_counter))

    def bool(self, n='b'): return SBool(z3.Const(self.name(n), z3.BoolSort()))

    def int(self, n='n'): return SInt(z3.Const(self.name(n), z3.IntSort()))

    def str(self, n='s'):
        t = z3.Const(self.name(n), z3.StringSort())
        self.ctx.probes.append(t)
        return SStr(t)

    def set(self, n='set'): return SSet(z3.Const(self.name(n), _interp.SetSort))

    def opaque(self, n='x', sort='Opaque'): return SOpaque(z3.Const(self.name(n), z3.DeclareSort(sort)), sort)

    def rec(self, rel, n='r', nullable=False):
        t = z3.Const(self.name(n), z3.IntSort())
        self.require(z3.And(t >= (-1 if nullable else 0), t < len(rel.records)))
        return SRec(rel, t, nullable)

    def props(self, n='p', fixed=None):
        """a property set with arbitrary content; fixed: {rel: value or None} pins categories"""
        from utg import words
        return self.obj(words.Properties, _data=self.props_data(n, fixed))

    def props_data(self, n='p', fixed=None):
        from utg import relations as r
        ent = Ent()
        ent.order = z3.Const(self.name(n + '.in order'), z3.BoolSort())
        for p in r.PROPERTY_TYPE.records:
            R = p.relation
            if fixed and R in fixed:
                if fixed[R] is not None: ent[R] = (z3.BoolVal(True), fixed[R])
                continue
            ent[R] = (z3.Const(self.name(n + '.' + R.__name__), z3.BoolSort()), self.rec(R, n + '=' + R.__name__))
        return self.ctx.reg(HDict(ent))

    guards = {}              # class -> check that its objects still have the shape assumed here

    def guard(self, cls, fields):
        if cls in self.guards: self.guards[cls](fields)

    def obj(self, cls, **fields):
        self.guard(cls, fields)
        return self.ctx.reg(HObj(cls, fields))

    def dict(self, items):
        """dict with exactly these (concrete) keys"""
        return self.ctx.reg(HDict({k: (z3.BoolVal(True), x) for k, x in items.items()}))

    def strdict(self, n='d'):
        """arbitrary dict from strings to integers"""
        k = z3.Const(self.name(n + '.key'), z3.StringSort())
        has, val = z3.Function(self.name(n + '.has'), z3.StringSort(), z3.BoolSort()), z3.Function(self.name(n + '.val'), z3.StringSort(), z3.IntSort())
        return self.ctx.reg(HDict({}, Base(k, has(k), SInt(val(k))), [], z3.StringSort()))

    def keyed(self, sort, value, n='d'):
        """arbitrary dict with keys of an uninterpreted sort (or 'str'); value(generic builder) builds the value of one key"""
        S = z3.StringSort() if sort == 'str' else z3.DeclareSort(sort)
        k = z3.Const(self.name(n + '.key'), S)
        has = z3.Function(self.name(n + '.has'), S, z3.BoolSort())
        self.ctx.ivars.append(k)
        try: v = value(Generic(self.ctx, self.I))
        finally: self.ctx.ivars.pop()
        return self.ctx.reg(HDict({}, Base(k, has(k), v), [], S))

    def each(self, count, n='forms'):
        """list of count strings, one by one"""
        return self.ctx.reg(HList(Seq([GU(z3.BoolVal(True), self.str('%s%d' % (n, k))) for k in range(count)])))

    def strs(self, count, n='forms', tok=False):
        """list of strings of the given (concrete or symbolic) length"""
        f = z3.Function(self.name(n), z3.IntSort(), z3.StringSort())
        v = z3.Int('i!%d' % next(_counter))
        ct = z3.IntVal(count) if isinstance(count, int) else count.t
        t = z3.Const(self.name(n + '.id'), _interp.ListTok) if tok else None
        return self.ctx.reg(HList(Seq([FMap(v, ct, z3.BoolVal(True), SStr(f(v)))], t)))

    def length(self, n='n'):
        x = self.int(n)
        self.require(x.t >= 0)
        return x

    def list(self, count, elem, n='list', kind='list', tok=None):
        """list of `count` generic elements; elem(builder-in-generic-context) builds one element as a function of the index"""
        v = z3.Int('i!%d' % next(_counter))
        ct = z3.IntVal(count) if isinstance(count, int) else count.t
        self.ctx.ivars.append(v)
        try:
            e = elem(Generic(self.ctx, self.I))
        finally:
            self.ctx.ivars.pop()
        q = Seq([FMap(v, ct, z3.BoolVal(True), e)], tok)
        return self.ctx.reg(HList(q)) if kind == 'list' else STuple(q)

    def mapping(self, count, elem, n='mapping'):
        """a mapping with `count` generic items, in any order"""
        return HItems(self.list(count, elem, n, 'tuple').seq)

    def union(self, *alts):
        """exactly one of the alternatives"""
        t = self.int('tag').t
        m = len(alts)
        self.require(And(t >= 0, t < m))
        return SUnion([(t == k if k < m - 1 else And(*[t != j for j in range(m - 1)]), a) for k, a in enumerate(alts)])


    def ref(self, name, maker):
        """some object about which only its identity is known: its fields are functions of it"""
        key = self.I.refs.get(name)
        if key is None:
            key = '%s!%d' % (name, next(_counter))
            tv = z3.Const('self!%d' % next(_counter), Token)
            save, self.ctx.ivars = self.ctx.ivars, [tv]
            try:
                o = maker(Generic(self.ctx, self.I))
            finally: self.ctx.ivars = save
            o = HObj(o.cls, dict(o.fields, _lazy__token=SOpaque(tv, 'Object')), key)
            REFS[key] = (tv, o)
            self.I.refs[name] = key
        return instance(key, self.ctx.fresh(Token, name))


class Generic(Builder):
    """builds values depending on the active generic index (range facts encoded in the terms)"""
    def bool(self, n='b'): return SBool(self.ctx.fresh(z3.BoolSort(), n))
    def int(self, n='n'): return SInt(self.ctx.fresh(z3.IntSort(), n))
    def str(self, n='s'): return SStr(self.ctx.fresh(z3.StringSort(), n))
    def set(self, n='set'): return SSet(self.ctx.fresh(_interp.SetSort, n))
    def opaque(self, n='x', sort='Opaque'): return SOpaque(self.ctx.fresh(z3.DeclareSort(sort), n), sort)
    def rec(self, rel, n='r', nullable=False): return L.fresh_rec(self.ctx, rel, nullable, n)

    def props_data(self, n='p', fixed=None):
        from utg import relations as r
        ent = Ent({p.relation: (self.ctx.fresh(z3.BoolSort(), n), self.rec(p.relation, n)) for p in r.PROPERTY_TYPE.records})
        ent.order = self.ctx.fresh(z3.BoolSort(), n + '.in order')
        return HDict(ent)

    def list(self, count, elem, n='list', kind='list', tok=None):
        v = z3.Int('i!%d' % next(_counter))
        ct = z3.IntVal(count) if isinstance(count, int) else count.t
        self.ctx.ivars.append(v)
        try: e = elem(self)
        finally: self.ctx.ivars.pop()
        q = Seq([FMap(v, ct, z3.BoolVal(True), e)], tok)
        return HList(q) if kind == 'list' else STuple(q)

    def obj(self, cls, **fields):
        self.guard(cls, fields)
        return HObj(cls, fields)

    def strs(self, count, n='forms', tok=False):
        v = z3.Int('i!%d' % next(_counter))
        ct = z3.IntVal(count) if isinstance(count, int) else count.t
        t = self.ctx.fresh(_interp.ListTok, n + '.id') if tok else None
        self.ctx.ivars.append(v)
        try: e = SStr(self.ctx.fresh(z3.StringSort(), n))
        finally: self.ctx.ivars.pop()
        return HList(Seq([FMap(v, ct, z3.BoolVal(True), e)], t))

    def length(self, n='n'):
        x = self.ctx.fresh(z3.IntSort(), n)
        return SInt(z3.If(x < 0, z3.IntVal(0), x))

    def union(self, *alts):
        t = self.ctx.fresh(z3.IntSort(), 'tag')
        m = len(alts)
        out = []
        for k, a in enumerate(alts):
            g = t == k if k < m - 1 else And(*[t != j for j in range(m - 1)])
            out.append((g, a))
        return SUnion(out)


def prop_content(v):
    from utg import words
    if isinstance(v, HObj) and v.cls is words.Properties: return v.fields['_data']
    if isinstance(v, words.Properties): return v._data
    return None


def abs_eq(a, b):
    """property sets are compared by content; a plain dict of the specification stands for a property set"""
    ca, cb = prop_content(a), prop_content(b)
    if ca is None and cb is None: return None
    if ca is None and isinstance(a, (HDict, dict)): ca = a
    if cb is None and isinstance(b, (HDict, dict)): cb = b
    if ca is None or cb is None: return None
    return eq(ca, cb)


def values_equal(a, b):
    return eq(a, b, abs_eq)


class Goal(object):
    """lhs(*args) behaves as rhs(*args) for all arguments built by setup, and changes nothing but `modifies`"""
    def __init__(self, name, setup, lhs, rhs=None, modifies=None, doc='', globals_ok=(), fn=None, exc_args=False, invariant=None, native=True, named=None, unroll=0, closed=False):
        self.closed = closed      # only with the named specification functions closed: a counterexample is believed only when it replays
        self.unroll = unroll
        self.named = named or {}
        self.name, self.setup, self.lhs, self.rhs = name, setup, lhs, rhs
        self.modifies = modifies or (lambda args: ())
        self.doc, self.globals_ok, self.fn, self.exc_args, self.native = doc, globals_ok, fn, exc_args, native


class Contract(object):
    """contract of a function of the library, usable at call sites: the call behaves as handler(I, args, kwargs)"""
    def __init__(self, name, target, handler, goals):
        self.name, self.target, self.handler, self.goals = name, target, handler, goals


class CannotReify(Exception):
    pass


def reify(m, v, memo=None):
    """real Python value of a symbolic one under model m"""
    memo = {} if memo is None else memo
    ev = lambda t: m.eval(T(t) if isinstance(t, bool) else t, model_completion=True)
    if isinstance(v, SBool): return is_true(ev(v.t))
    if isinstance(v, SInt): return ev(v.t).as_long()
    if isinstance(v, SStr): return zstr(ev(v.t))
    if isinstance(v, SRec):
        k = ev(v.t).as_long()
        return None if k == -1 else v.rel.records[k]
    if isinstance(v, SOpaque): return str(ev(v.t))
    if isinstance(v, SUnion):
        for g, x in v.alts:
            if is_true(ev(g)): return reify(m, x, memo)
        raise CannotReify('union')
    if type(v) is tuple: return tuple(reify(m, x, memo) for x in v)
    if isinstance(v, STuple): return tuple(reify_seq(m, v.seq, memo))
    if id(v) in memo: return memo[id(v)][0]
    if isinstance(v, HList):
        out = []
        memo[id(v)] = (out, v)
        out.extend(reify_seq(m, v.seq, memo))
        return out
    if isinstance(v, HObj):
        o = v.cls.__new__(v.cls)
        memo[id(v)] = (o, v)
        for k, x in v.fields.items():
            if k != '_lazy__token' or hasattr(v.cls, k): setattr(o, k, reify(m, x, memo))
        return o
    if isinstance(v, HItems): return dict(reify_seq(m, v.seq, memo))
    if isinstance(v, IntKey): return str(ev(v.t).as_long())
    if isinstance(v, HDict):
        out = {}
        memo[id(v)] = (out, v)
        if v.base is not None:
            # the keys the model mentions
            memo['partial'] = (True, None)
            for q in model_values(m, v.keysort):
                has, x = dict_at(v, q)
                if is_true(ev(T(has))): out[zstr(q) if z3.is_string_value(q) else str(q)] = reify(m, x, memo)
            return out
        backwards = v.ent.order is not None and not isinstance(v.ent.order, str) and not is_true(ev(v.ent.order))
        for k, (p, x) in list(v.ent.items())[::-1 if backwards else 1]:
            if is_true(ev(T(p))): out[k] = reify(m, x, memo)
        for g, k, x in v.log:
            if is_true(ev(T(g))): out[reify(m, k, memo)] = reify(m, x, memo)
        return out
    if isinstance(v, (Sym,) + HEAP): raise CannotReify(type(v).__name__)
    return v


def model_values(m, sort):
    """the elements of the sort that occur in the model"""
    out = []

    def take(x):
        if z3.is_ast(x) and z3.is_expr(x) and x.sort() == sort and not any(x.eq(y) for y in out) and (z3.is_string_value(x) or x.num_args() == 0) and len(out) < 40: out.append(x)
    for x in (m.get_universe(sort) or []) if sort.kind() == z3.Z3_UNINTERPRETED_SORT else []: take(x)
    for d in m.decls():
        f = m[d]
        if isinstance(f, z3.FuncInterp):
            for k in range(f.num_entries()):
                e = f.entry(k)
                for j in range(e.num_args()): take(e.arg_value(j))
                take(e.value())
            take(f.else_value())
        elif f is not None: take(f)
    return out


def zstr(t):
    s = t.as_string() if z3.is_string_value(t) else None
    if s is None: raise CannotReify('string')
    return unescape(s)


def reify_seq(m, q, memo):
    out = []
    for s in q.segs:
        if isinstance(s, GU):
            if is_true(m.eval(T(s.g), model_completion=True)): out.append(reify(m, s.v, memo))
        else:
            n = m.eval(s.n, model_completion=True).as_long()
            if n > 200: raise CannotReify('long sequence')
            for k in range(n):
                if is_true(m.eval(T(s.guard_at(z3.IntVal(k))), model_completion=True)):
                    out.append(reify(m, s.at(z3.IntVal(k)), memo))
    return out


class Result(object):
    def __init__(self, goal):
        self.goal = goal
        self.status = None        # proved | refuted | unknown | unsupported
        self.obligations = []
        self.why = ''
        self.paths = 0
        self.spec_paths = 0
        self.called, self.contracts, self.trusted = set(), set(), set()
        self.cex = None
        self.failed = None
        self.time = 0.0
        self.solver_time = 0.0
        self.checks = 0

    def row(self):
        return {'goal': self.goal.name, 'status': self.status, 'obligations': len(self.obligations),
                'discharged': sum(o.status == 'proved' for o in self.obligations), 'paths': self.paths, 'seconds': round(self.time, 2),
                'solver_seconds': round(self.solver_time, 2), 'why': self.why}


def run_outcome(I, fn, args, kwargs):
    I.homes.clear()
    try:
        return 'return', I.call(fn, args, kwargs)
    except SymRaise as e:
        return 'raise', e.exc
    except (BreakEx, ContinueEx):
        raise Unsupported('stray break')


def discharge(goal, install, budget=120.0, timeout=None):
    if goal.named:
        # first with the named specification functions closed, then, if that is not enough, with their definitions
        r = discharge1(goal, install, budget if goal.closed else budget / 2, timeout)
        if r.status == 'proved' or goal.closed: return r
        named, goal.named = goal.named, {}
        try: q = discharge1(goal, install, budget, timeout)
        finally: goal.named = named
        q.time += r.time
        return q
    return discharge1(goal, install, budget, timeout)


def discharge1(goal, install, budget=120.0, timeout=None):
    """generate and discharge all obligations of one goal"""
    res = Result(goal)
    t0 = time.time()
    ctx = Ctx()
    if timeout:
        ctx.solver.set('timeout', timeout)
    ctx.deadline = t0 + budget
    try:
        I = Interp(ctx, ROOTS)
        install(I, goal)
        I.unroll = goal.unroll
        b = Builder(ctx, I)
        made = goal.setup(b)
        args, kwargs = made if isinstance(made, tuple) and len(made) == 2 and isinstance(made[1], dict) and isinstance(made[0], tuple) else (made, {})
        if ctx.check() != z3.sat:
            res.status, res.why = 'unknown', 'precondition not shown satisfiable'
            return res
        snap = ctx.snapshot()
        I.entry = snap[0]
        allowed = {id(o) for o in goal.modifies(args)}
        paths = ctx.explore(lambda: run_outcome(I, goal.lhs, args, kwargs))
        res.paths = len(paths)
        if not paths:
            res.status, res.why = 'unknown', 'no reachable path'
            return res
        for n, p in enumerate(paths):
            ctx.solver.push()
            try:
                ctx.solver.add(*[T(c) for c in p.conds])
                ctx.solver.add(*[T(f) for f in p.facts])
                check_path(ctx, I, goal, res, p, n, args, kwargs, snap, allowed)
            finally:
                ctx.solver.pop()
        res.obligations = ctx.obligations
        bad = [o for o in ctx.obligations if o.status != 'proved']
        if not ctx.obligations:
            res.status, res.why = 'unknown', 'no obligations'
        elif not bad:
            res.status = 'proved'
        else:
            ref = [o for o in bad if o.status == 'refuted' and not o.note]
            o = (ref or bad)[0]
            res.failed = o
            res.status = 'refuted' if ref else 'unknown'
            res.why = '%s: %s%s' % (o.name, o.status, (' (%s)' % o.note) if o.note else '')
            if ref:
                res.models = [x.model for x in ref if x.model is not None]
                res.args = (args, kwargs)
    except Unsupported as e:
        res.status, res.why = 'unsupported', str(e)
        res.obligations = ctx.obligations
        if os.environ.get('PYVC_TRACE'): traceback.print_exc()
    except RecursionError:
        res.status, res.why = 'unsupported', 'recursion depth'
        if os.environ.get('PYVC_TRACE'): traceback.print_exc()
    except z3.Z3Exception as e:
        res.status, res.why = 'unsupported', 'solver: %s' % e
        if os.environ.get('PYVC_TRACE'): traceback.print_exc()
    except Exception as e:
        res.status, res.why = 'unsupported', 'verifier: %s: %s' % (type(e).__name__, e)
        if os.environ.get('PYVC_TRACE'): traceback.print_exc()
    finally:
        res.time = time.time() - t0
        res.solver_time, res.checks = ctx.solver_time, ctx.nchecks
        try:
            res.called, res.contracts, res.trusted = I.called, I.used_contracts, I.used_trusted
        except UnboundLocalError:
            pass
    return res


def check_path(ctx, I, goal, res, p, n, args, kwargs, snap, allowed):
    # frame
    for i, (o, st) in p.heap[0].items():
        if i not in snap[0] or i in allowed: continue
        before, after = L.view(o, snap[0][i][1]), L.view(o, st)
        if isinstance(o, HObj):
            keys = {k for k in set(before.fields) | set(after.fields) if not k.startswith('_lazy__')}
            same = all(k in before.fields and k in after.fields and before.fields[k] is after.fields[k] for k in keys)
            if same: continue
        try:
            g = eq(before, after)
        except NotComparable as e:
            raise Unsupported('frame: %s' % e)
        ctx.prove(g, '%s: path %d leaves %s unchanged' % (goal.name, n, type(o).__name__ if not isinstance(o, HObj) else o.cls.__name__), note='loop state' if p.extra and has_state(p.extra) else '')
    for k in p.heap[1]:
        if k not in goal.globals_ok:
            raise Unsupported('assigns module global %s.%s' % k)
    if goal.rhs is None:
        o = ctx.prove(z3.BoolVal(p.kind == 'return'), '%s: path %d raises nothing' % (goal.name, n))
        return
    la = list(p.extra)
    specs = ctx.explore(lambda: run_outcome(I, goal.rhs, args, kwargs))
    res.spec_paths += len(specs)
    if not specs:
        raise Unsupported('specification has no reachable path')
    for k, q in enumerate(specs):
        ctx.solver.push()
        try:
            ctx.solver.add(*[T(c) for c in q.conds])
            ctx.solver.add(*[T(f) for f in q.facts])
            name = '%s: path %d/%d has the specified result' % (goal.name, n, k)
            lb = list(q.extra)
            note = 'loop state' if has_state(la) or has_state(lb) else ''
            if p.kind != q.kind:
                goalf = z3.BoolVal(False)
            elif p.kind == 'raise':
                goalf = z3.BoolVal(p.value.cls is q.value.cls)
                if goal.exc_args and p.value.cls is q.value.cls:
                    goalf = And(goalf, *[eq(p.value.kwargs.get(x), q.value.kwargs.get(x)) for x in set(p.value.kwargs) | set(q.value.kwargs)])
            else:
                try:
                    goalf = values_equal(p.value, q.value)
                except NotComparable as e:
                    goalf = None
                    note = 'not comparable: %s' % e
            if goalf is None:
                ctx.obligations.append(Obligation(name, 'unknown', None, 0, note))
                continue
            mark = len(ctx.obligations)
            o = ctx.prove(goalf, name, note=note)
            if o.status != 'proved' and (la and lb):
                if L.unify(ctx, la, lb, abs_eq):
                    ctx.obligations.pop()
                    o = ctx.prove(goalf, name + ' (by loop induction)', note=note)
        finally:
            ctx.solver.pop()


def has_state(loops):
    return any(l.state for l in loops)
