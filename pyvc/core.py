"""Path exploration, solver access, merging and equality of symbolic values."""
import itertools
import time
import z3

from . import values
from .values import *
FALSE = z3.BoolVal(False)

_counter = itertools.count()

NONE_CODE = -1


def sv(s):
    """z3 string literal of a Python str"""
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def unescape(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def _split_at(t, sep, k):
    parts = t.split(sep) if sep else [t]
    return parts[k] if 0 <= k < len(parts) else ''


# what the uninterpreted functions for trusted str methods really are: used to correct the models of refuted obligations
REAL = {'py_upper': str.upper, 'py_lower': str.lower, 'py_strip': str.strip, 'py_str_int': str, 'py_isupper': str.isupper, 'py_islower': str.islower,
        'py_replace_all': str.replace, 'py_replace_first': lambda t, a, b: t.replace(a, b, 1), 'py_count': str.count,
        'py_split_n': lambda t, sep: len(t.split(sep)) if sep else 1, 'py_split_at': _split_at}


def real_function(name):
    if name.startswith('py_keep_'):
        keep = {chr(int(x, 16)) for x in name[8:].split('.') if x}
        return lambda t: ''.join(c for c in t if c in keep)
    return REAL.get(name)


def native_value(t):
    if z3.is_string_value(t): return unescape(t.as_string())
    if z3.is_int_value(t): return t.as_long()
    if is_true(t) or is_false(t): return is_true(t)
    return None


def trusted_apps(exprs):
    """applications of those functions, without bound variables"""
    out, seen, todo = [], set(), list(exprs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and real_function(x.decl().name()): out.append(x)
        todo.extend(x.children())
    return out


def corrections(apps, m):
    """instances of what these functions really are that the model violates"""
    out, pins = [], []
    for x in apps:
        args = [m.eval(a, model_completion=True) for a in x.children()]
        vals = [native_value(a) for a in args]
        if any(v is None for v in vals): continue
        try: y = real_function(x.decl().name())(*vals)
        except Exception: continue
        y = z3.BoolVal(y) if isinstance(y, bool) else z3.IntVal(y) if isinstance(y, int) else sv(y)
        f = x.decl()(*args) == y
        pins += [a == v for a, v in zip(x.children(), args)]
        if not is_true(m.eval(f, model_completion=True)): out.append(f)
    return out, pins


class Infeasible(Exception):
    pass


class SymRaise(Exception):
    """a Python exception raised by the interpreted code"""
    def __init__(self, exc): self.exc = exc


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class Path(object):
    __slots__ = ('conds', 'facts', 'kind', 'value', 'heap', 'extra')
    def cond(self): return And(*self.conds)


class Obligation(object):
    def __init__(self, name, status, model=None, time=0.0, note=''):
        self.name, self.status, self.model, self.time, self.note = name, status, model, time, note


def conjuncts(t):
    if z3.is_and(t):
        return [x for c in t.children() for x in conjuncts(c)]
    return [t]


MERGED = None      # while results of a computation are merged: pairs of objects -> what they were merged into
CTX = None         # the exploration in progress


class Ctx(object):
    TIMEOUT = 20000

    def __init__(self, seed=0):
        global CTX
        CTX = self
        self.solver = z3.Solver()
        self.solver.set('timeout', self.TIMEOUT)
        self.trace, self.pos, self.conds, self.facts, self.pending = [], 0, [], [], None
        self.heap = {}
        self.overlay = {}          # (module name, variable) -> value: assignments to module globals
        self.ivars = []            # active generic index variables
        self.obligations = []
        self.loops = []            # symbolic loop summaries of the current path
        self.inv_hooks = []        # loop invariants supplied by contracts
        self.probes = []           # keys the goal asks about
        self.solver_time = 0.0
        self.nchecks = 0
        self.nbranch = 0
        self.max_paths = 20000
        self.deadline = None
        self.lemmas = []           # names of lemmas used
        self.joins = []            # definitions of symbolic joins
        self.cexs = []
        self.exs = []              # named existentials: (constant, bound, K, body, facts)
        self.wits = []             # witnesses: (index term, bound, body at K)
        self.wlog = []             # objects written to, in order (None: a module global)
        self.lazy = []             # quantified facts, used only where the quantifier-free ones do not suffice

    # ---- solver
    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.nchecks += 1
        return r

    def feasible(self, cond):
        cond = z3.simplify(T(cond))
        if is_true(cond): return True
        if is_false(cond): return False
        return self.check(cond) != z3.unsat

    def add(self, cond):
        cond = T(cond)
        if is_true(cond): return
        self.conds.append(cond)
        self.solver.add(cond)

    def assume(self, fact):
        """a definitional fact or an established lemma"""
        fact = T(fact)
        if is_true(fact): return
        self.facts.append(fact)
        self.solver.add(fact)

    def entails(self, goal):
        goal = z3.simplify(T(goal))
        if is_true(goal): return True
        if is_false(goal): return self.check() == z3.unsat
        for g in conjuncts(goal):
            if self.check(z3.Not(g)) != z3.unsat: return False
        return True

    # ---- choice
    def choose(self, conds):
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            simp = [z3.simplify(T(c)) for c in conds]
            for k, s in enumerate(simp):
                if is_true(s):
                    feas = [k]
                    break
            else:
                feas = [k for k, s in enumerate(simp) if not is_false(s) and self.check(s) != z3.unsat]
            if not feas:
                raise Infeasible()
            c = feas[0]
            if self.pending is None and len(feas) > 1:
                raise Unsupported('branch outside exploration')
            for k in feas[1:]:
                self.pending.append(self.trace[:self.pos] + [k])
            self.trace.append(c)
            self.nbranch += 1
        self.pos += 1
        self.add(conds[c])
        return c

    def branch(self, cond):
        cond = z3.simplify(T(cond))
        if is_true(cond): return True
        if is_false(cond): return False
        return self.choose([cond, Not(cond)]) == 0

    # ---- exploration
    def explore(self, fn):
        saved = (self.trace, self.pos, self.conds, self.facts, self.pending, self.loops)
        snap = self.snapshot()
        pending = [[]]
        out = []
        base_loops = list(self.loops)
        while pending:
            if len(out) > self.max_paths:
                raise Unsupported('too many paths')
            tr = pending.pop()
            self.trace, self.pos, self.conds, self.facts, self.pending = list(tr), 0, [], [], pending
            self.loops = list(base_loops)
            self.solver.push()
            p = Path()
            try:
                p.kind, p.value = fn()
                p.conds, p.facts = self.conds, self.facts
                p.heap = self.diff(snap)
                p.extra = self.loops[len(base_loops):]
                out.append(p)
            except Infeasible:
                pass
            finally:
                self.solver.pop()
                self.restore(snap)
                self.trace, self.pos, self.conds, self.facts, self.pending, self.loops = saved
        return out

    # ---- heap
    def reg(self, o):
        if isinstance(o, HObj) and o.ref is not None: return o      # known by identity only: never written to
        self.heap[id(o)] = o
        return o

    @staticmethod
    def state(o):
        if isinstance(o, HObj): return dict(o.fields)
        if isinstance(o, (HList, HSet)): return o.seq
        if isinstance(o, HIter): return (o.state, o.seq, o.saw)
        return (Ent(o.ent), o.base, list(o.log))

    @staticmethod
    def set_state(o, s):
        if isinstance(o, HObj): o.fields = dict(s)
        elif isinstance(o, (HList, HSet)): o.seq = s
        elif isinstance(o, HIter): o.state, o.seq, o.saw = s
        else: o.ent, o.base, o.log = Ent(s[0]), s[1], list(s[2])

    @staticmethod
    def same_state(o, a, b):
        if isinstance(o, HObj):
            return a.keys() == b.keys() and all(a[k] is b[k] for k in a)
        if isinstance(o, (HList, HSet)):
            return a is b or (len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs)))
        if isinstance(o, HIter): return a[0] == b[0] and a[1] is b[1]
        return (a[1] is b[1] and len(a[2]) == len(b[2]) and all(x is y for x, y in zip(a[2], b[2]))
                and a[0].keys() == b[0].keys() and all(a[0][k] is b[0][k] for k in a[0]))

    def snapshot(self):
        return {i: (o, self.state(o)) for i, o in self.heap.items()}, dict(self.overlay)

    def diff(self, snap):
        """objects of snap whose state differs now"""
        d = {i: (o, self.state(o)) for i, (o, s) in snap[0].items() if not self.same_state(o, s, self.state(o))}
        ov = {k: v for k, v in self.overlay.items() if k not in snap[1] or snap[1][k] is not v}
        return d, ov

    def restore(self, snap):
        for i, (o, s) in snap[0].items():
            self.set_state(o, s)
        self.overlay = dict(snap[1])
        # objects created on the path stay registered: they may be reachable from its result

    # ---- fresh terms (functions of the active generic indices)
    def fresh(self, sort, name='x'):
        nm = '%s!%d' % (name, next(_counter))
        if self.ivars:
            f = z3.Function(nm, *([v.sort() for v in self.ivars] + [sort]))
            return f(*self.ivars)
        return z3.Const(nm, sort)

    def fresh_const(self, sort, name='x'):
        return z3.Const('%s!%d' % (name, next(_counter)), sort)

    # ---- existentials over symbolic sequences
    def exists(self, var, n, cond, facts=()):
        """`for some var in 0..n-1, cond`, as a named constant; pointwise equivalent conditions get the same name"""
        cond, n = z3.simplify(T(cond)), z3.simplify(n)
        if is_false(cond): return FALSE
        if is_true(cond): return n > 0
        facts = [T(f) for f in facts]
        if self.ivars and any(depends(t, self.ivars) for t in [cond, n] + facts):
            return z3.Exists([var], And(var >= 0, var < n, cond, *facts))
        K = z3.Int('ex!at')
        cond = z3.simplify(z3.substitute(cond, (var, K)))
        facts = [z3.substitute(f, (var, K)) for f in facts]
        for b, n2, body2, f2 in self.exs:
            if n2.eq(n) and body2.eq(cond): return b
        b = z3.Const('ex!%d' % next(_counter), z3.BoolSort())
        for b2, n2, body2, f2 in self.exs[-12:][::-1]:
            if not n2.eq(n): continue
            r = self.pointwise(K, n, facts + f2, cond, body2)
            if r == 'eq': return b2
            if r == 'sub': self.assume(Implies(b, b2))
            if r == 'sup': self.assume(Implies(b2, b))
        self.exs.append((b, n, cond, facts))
        self.lazy.append(b == z3.Exists([K], And(K >= 0, K < n, cond, *facts)))
        for e, n2, body2 in self.wits: self.assume(self.instance(b, n, cond, e))
        return b

    def pointwise(self, K, n, facts, a, b):
        self.solver.push()
        self.solver.set('timeout', 400)
        try:
            self.solver.add(K >= 0, K < n, *facts)
            sub = self.check(a, z3.Not(b)) == z3.unsat
            sup = self.check(b, z3.Not(a)) == z3.unsat
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.TIMEOUT)
        return 'eq' if sub and sup else 'sub' if sub else 'sup' if sup else None

    def instance(self, b, n, body, e):
        K = z3.Int('ex!at')
        return Implies(And(e >= 0, e < n, z3.substitute(body, (K, e))), b)

    def witness(self, e, var, n, cond):
        """e is the first index with cond (which is assumed already)"""
        K = z3.Int('ex!at')
        body = z3.simplify(z3.substitute(T(cond), (var, K)))
        n = z3.simplify(n)
        for b, n2, body2, f2 in self.exs: self.assume(self.instance(b, n2, body2, e))
        at = lambda t, x: z3.substitute(t, (K, x))
        for e2, n2, body2 in self.wits:
            self.assume(Implies(And(e2 >= 0, e2 < e), Not(at(body, e2))))
            self.assume(Implies(And(e >= 0, e < e2), Not(at(body2, e))))
        self.wits.append((e, n, body))
        self.defer(z3.ForAll([var], Implies(And(var >= 0, var < e), Not(cond))))

    def point(self, e):
        """existentials are related to their instance at e"""
        if self.ivars: return
        for b, n2, body2, f2 in self.exs: self.assume(self.instance(b, n2, body2, e))
        self.wits.append((e, z3.IntVal(0), FALSE))

    def defer(self, fact):
        """a fact of this path with a quantifier: given to the solver only when a proof needs it"""
        m = z3.Const('lazy!%d' % next(_counter), z3.BoolSort())
        self.assume(m)
        self.lazy.append(Implies(m, fact))

    def by_congruence(self, goal):
        """an equality of two terms of the same form, argument by argument"""
        g = goal
        while z3.is_eq(g) and z3.is_bool(g.arg(0)):
            if is_true(g.arg(1)): g = g.arg(0)
            elif is_true(g.arg(0)): g = g.arg(1)
            else: break
        if not z3.is_eq(g): return False
        self.solver.set('timeout', 1000)
        try: return self.congruent(g.arg(0), g.arg(1))
        finally: self.solver.set('timeout', self.TIMEOUT)

    def congruent(self, a, b):
        if a.eq(b): return True
        if a.num_args() and a.num_args() == b.num_args() and a.decl() == b.decl() and not z3.is_quantifier(a) and not z3.is_bool(a):
            if all(self.congruent(x, y) for x, y in zip(a.children(), b.children())): return True
        return self.check(a != b) == z3.unsat

    # ---- obligations
    def prove(self, goal, name, note='', want_model=True):
        goal = T(goal)
        t = time.time()
        lazy_model = False
        s = z3.simplify(goal)
        if is_true(s):
            r, m = z3.unsat, None
        else:
            r, m = z3.unsat, None
            for g in conjuncts(s):
                r0 = r
                self.solver.push()
                self.solver.add(z3.Not(g))
                self.solver.set('timeout', 2000)
                q = self.check()
                self.solver.set('timeout', self.TIMEOUT)
                if q == z3.unknown:
                    self.solver.pop()
                    self.solver.push()
                    if self.by_congruence(goal if g is s else g): q = z3.unsat
                    else:
                        self.solver.add(z3.Not(g))
                        q = self.check()
                if q != z3.unsat and self.lazy:
                    m0 = self.solver.model() if q == z3.sat else None
                    self.solver.pop()
                    self.solver.push()
                    self.solver.add(z3.Not(g), *self.lazy)
                    self.solver.set('timeout', 5000)
                    q2 = self.check()
                    self.solver.set('timeout', self.TIMEOUT)
                    if q2 == z3.unknown and m0 is not None:
                        r, m, lazy_model = q, m0, True
                        self.solver.pop()
                        break
                    q = q2
                if q == z3.sat:
                    r, m = q, self.solver.model() if want_model else None
                    if want_model:
                        q, m = self.corrected(m)
                        r = q if q == z3.sat else r0
                elif q == z3.unknown: r = q
                self.solver.pop()
                if q == z3.sat: break
        st = {'unsat': 'proved', 'sat': 'refuted'}.get(str(r), 'unknown')
        o = Obligation(name, st, m, time.time() - t, note or ('quantified facts not decided' if lazy_model else ''))
        self.obligations.append(o)
        return o


    def corrected(self, m, rounds=12):
        """(sat, a model with the trusted functions as they really are) where that is soon found; (unsat, None) when there is none"""
        apps = trusted_apps(self.solver.assertions())
        if apps: self.solver.set('timeout', 3000)
        try:
            for _ in range(rounds):
                facts, pins = corrections(apps, m)
                if not facts: break
                self.solver.add(*facts)
                q = self.check(*pins)         # first with the same arguments
                if q != z3.sat: q = self.check()
                if q == z3.unsat: return q, None
                if q != z3.sat: break
                m = self.solver.model()
        finally: self.solver.set('timeout', self.TIMEOUT)
        return z3.sat, m


# ---------------------------------------------------------------- merging

def depends(t, vs):
    """the term mentions one of the constants"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and any(x.eq(v) for v in vs): return True
        todo.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def lift(v):
    if isinstance(v, Poison): raise Unsupported('unknown value: %s' % v.why)
    if isinstance(v, bool): return SBool(z3.BoolVal(v))
    if isinstance(v, int): return SInt(z3.IntVal(v))
    if isinstance(v, str): return SStr(sv(v))
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return SReal(z3.Q(f.numerator, f.denominator))
    if is_record(v): return SRec(v._relation, z3.IntVal(rec_index(v)))
    return v


def is_record(v):
    return (not isinstance(v, (Sym, HEAP, type))) and hasattr(v, '_relation') and hasattr(v, 'is_relation') is False and hasattr(type(v), '__mro__') and type(v).__name__ == 'Record'


_REC_INDEX = {}


def rec_index(rec):
    d = _REC_INDEX.get(rec._relation)
    if d is None:
        d = _REC_INDEX[rec._relation] = {id(x): k for k, x in enumerate(rec._relation.records)}
    return d[id(rec)]


def has_sym(v):
    if isinstance(v, (Sym,) + HEAP + (VExc, VBound, Poison)): return True
    if type(v) is tuple: return any(has_sym(x) for x in v)
    return False


def ident(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (bool, int, str, float)): return a == b
    if isinstance(a, (SBool, SInt, SReal, SStr, SSet)): return a.t.eq(b.t)
    if isinstance(a, SOpaque): return a.t.eq(b.t)
    if isinstance(a, STable): return a.table == b.table and a.t.eq(b.t)
    if isinstance(a, SRec): return a.rel is b.rel and a.t.eq(b.t)
    if type(a) is tuple: return len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    return False


def ite(c, a, b):
    c = T(c)
    if is_true(c): return a
    if is_false(c): return b
    if ident(a, b): return a
    if isinstance(a, SUnion) or isinstance(b, SUnion):
        aa = [(And(c, g), v) for g, v in a.alts] if isinstance(a, SUnion) else [(c, a)]
        bb = [(And(Not(c), g), v) for g, v in b.alts] if isinstance(b, SUnion) else [(Not(c), b)]
        out = []
        for g, v in aa + bb:
            for k, (g2, v2) in enumerate(out):
                m = try_ite(g, v, v2)
                if m is not None:
                    out[k] = (Or(g2, g), m)
                    break
            else:
                out.append((g, v))
        return out[0][1] if len(out) == 1 else SUnion(out)
    m = try_ite(c, a, b)
    if m is not None:
        return m
    return SUnion([(c, a), (Not(c), b)])


def registered(o):
    return CTX is not None and CTX.heap.get(id(o)) is o


values.LIVE = registered


def try_ite(c, a, b):
    if MERGED is None or not isinstance(a, HEAP) or not isinstance(b, HEAP): return try_ite1(c, a, b)
    key = (c.get_id(), id(a), id(b))
    if key not in MERGED: MERGED[key] = (try_ite1(c, a, b), c, a, b)
    return MERGED[key][0]


def try_ite1(c, a, b):
    if ident(a, b): return a
    if isinstance(a, HEAP) and isinstance(b, HEAP) and (registered(a) or registered(b)): return None     # either object may be changed later
    if isinstance(a, STable) or isinstance(b, STable):
        if isinstance(a, STable) and isinstance(b, STable) and a.table == b.table: return STable(a.table, If(c, a.t, b.t))
        if isinstance(a, (STable, tuple)) and isinstance(b, (STable, tuple)): return ite(c, expand(a), expand(b))
        return None
    la, lb = lift(a), lift(b)
    for cls in (SBool, SInt, SStr, SReal, SSet):
        if isinstance(la, cls) and isinstance(lb, cls):
            return cls(If(c, la.t, lb.t))
    if isinstance(la, SOpaque) and isinstance(lb, SOpaque) and la.t.sort() == lb.t.sort():
        return SOpaque(If(c, la.t, lb.t), la.tag)
    if isinstance(la, SRec) and isinstance(lb, SRec) and la.rel is lb.rel:
        return SRec(la.rel, If(c, la.t, lb.t), la.nullable or lb.nullable)
    if isinstance(la, SRec) and b is None: return SRec(la.rel, If(c, la.t, z3.IntVal(-1)), True)
    if isinstance(lb, SRec) and a is None: return SRec(lb.rel, If(c, z3.IntVal(-1), lb.t), True)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, HObj) and isinstance(b, HObj) and a.ref is not None and a.ref == b.ref:
        return instance(a.ref, If(c, a.fields['_lazy__token'].t, b.fields['_lazy__token'].t))
    if isinstance(a, HObj) and isinstance(b, HObj) and a.cls is b.cls and a.fields.keys() == b.fields.keys():
        return HObj(a.cls, {k: ite(c, a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, HDict) and isinstance(b, HDict) and a.is_fin() and b.is_fin():
        return HDict(merge_ent([(c, a.ent), (Not(c), b.ent)]))
    if isinstance(a, (HList, STuple)) and type(a) is type(b) and not isinstance(a, SView):
        q = ite_seq(c, a.seq, b.seq)
        return type(a)(q) if q is not None else None
    return None


def ite_seq(c, a, b):
    if a is b: return a
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None and len(ca) == len(cb):
        return Seq([GU(z3.BoolVal(True), ite(c, x, y)) for x, y in zip(ca, cb)])
    if len(a.segs) == len(b.segs) == 1 and isinstance(a.segs[0], FMap) and isinstance(b.segs[0], FMap):
        x, y = a.segs[0], b.segs[0]
        v = z3.Int('ix!%d' % next(_counter))
        p = [(x.var, v)]; r = [(y.var, v)]
        tok = None
        if a.tok is not None and b.tok is not None and a.tok.sort() == b.tok.sort():
            tok = If(c, a.tok, b.tok)
        e = ite(c, subst(x.elem, p), subst(y.elem, r))
        fx = [Implies(c, z3.substitute(f, *p)) for f in x.facts] + [Implies(Not(c), z3.substitute(f, *r)) for f in y.facts]
        return Seq([FMap(v, If(c, x.n, y.n), If(c, x.guard_at(v), y.guard_at(v)), e, fx)], tok)
    if len(a.segs) == 0 or len(b.segs) == 0 or True:
        # guarded concatenation
        segs = []
        for g, q in ((c, a), (Not(c), b)):
            for s in q.segs:
                if isinstance(s, GU): segs.append(GU(And(g, s.g), s.v))
                else: segs.append(FMap(s.var, s.n, And(g, s.guard), s.elem, s.facts, s.origin))
        return Seq(segs)


def expand(v):
    """a table element spelled out"""
    return merge_vals([(v.t == k, x) for k, x in enumerate(v.table)]) if isinstance(v, STable) else v


def distinct_table(table): return len(set(table)) == len(table)


def merge_vals(pairs):
    """pairs: [(cond, value)], conditions exhaustive"""
    acc = pairs[-1][1]
    for c, v in reversed(pairs[:-1]):
        acc = ite(c, v, acc)
    return acc


def merge_ent(pairs):
    keys = []
    seen = set()
    for c, e in pairs:
        for k in e:
            if k not in seen:
                seen.add(k)
                keys.append(k)
    out = Ent()
    for k in keys:
        ps = [(c, e[k]) for c, e in pairs if k in e]
        if len(ps) == len(pairs) and all(x[1] is ps[0][1] for x in ps):
            out[k] = ps[0][1]
            continue
        pres = z3.simplify(Or(*[And(c, p) for c, (p, v) in ps])) if not (len(ps) == len(pairs) and all(is_true(T(p)) for c, (p, v) in ps)) else z3.BoolVal(True)
        val = merge_vals([(And(c, p), v) for c, (p, v) in ps])
        out[k] = (pres, val)
    out.order = join_orders([getattr(e, 'order', None) for c, e in pairs])
    if out.order is None and not all(in_order([k for k in e if not is_false(T(e[k][0]))], keys) for c, e in pairs): out.order = 'unknown'
    return out


def join_orders(orders):
    """the order of entries that come from entries in these orders"""
    if any(isinstance(o, str) for o in orders): return 'unknown'
    return next((o for o in orders if o is not None), None)


def in_order(some, keys):
    at = [keys.index(k) for k in some]
    return at == sorted(at)


def merge_state(o, pairs):
    """pairs: [(cond, state)], exhaustive under the current path"""
    if len(pairs) == 1: return pairs[0][1]
    if isinstance(o, HObj):
        keys = set()
        for c, s in pairs: keys |= s.keys()
        out = {}
        for k in keys:
            if not all(k in s for c, s in pairs):
                if k.startswith('_lazy__'):
                    continue     # a cache filled on some paths only: forgetting it is sound (it is recomputed)
                raise Unsupported('attribute %s set on some paths only' % k)
            vs = [(c, s[k]) for c, s in pairs]
            if all(v is vs[0][1] for c, v in vs): out[k] = vs[0][1]
            else: out[k] = merge_vals(vs)
        return out
    if isinstance(o, (HList, HSet)):
        return merge_seqs(pairs)
    if isinstance(o, HIter):
        st = pairs[0][1]
        return st if all(s[0] == st[0] and s[1] is st[1] for c, s in pairs) else ('part', None, None)
    ents = merge_ent([(c, s[0]) for c, s in pairs])
    b = pairs[0][1][1]
    if not all(s[1] is b for c, s in pairs): raise Unsupported('merging different dict bases')
    pl = 0
    logs = [s[2] for c, s in pairs]
    while all(len(l) > pl for l in logs) and all(l[pl] is logs[0][pl] for l in logs): pl += 1
    log = list(logs[0][:pl])
    for (c, s) in pairs:
        for g, k, v in s[2][pl:]: log.append((And(c, g), k, v))
    return (ents, b, log)


def merge_seqs(pairs):
    qs = [q for c, q in pairs]
    if all(q is qs[0] for q in qs): return qs[0]
    pl = 0
    while all(len(q.segs) > pl for q in qs) and all(q.segs[pl] is qs[0].segs[pl] for q in qs): pl += 1
    if any(len(q.segs) == pl for q in qs) or True:
        rest = [(c, Seq(q.segs[pl:])) for c, q in pairs]
        conc = [r.concrete() for c, r in rest]
        segs = list(qs[0].segs[:pl])
        if all(x is not None for x in conc) and len({len(x) for x in conc}) == 1:
            for j in range(len(conc[0])):
                segs.append(GU(z3.BoolVal(True), merge_vals([(c, conc[k][j]) for k, (c, r) in enumerate(rest)])))
            return Seq(segs)
        if all(len(r.segs) == 1 and isinstance(r.segs[0], FMap) for c, r in rest):
            acc = rest[-1][1]
            for c, r in reversed(rest[:-1]): acc = ite_seq(c, r, acc)
            return Seq(segs + acc.segs)
        for c, r in rest:
            for s in r.segs:
                if isinstance(s, GU): segs.append(GU(And(c, s.g), s.v))
                else: segs.append(FMap(s.var, s.n, And(c, s.guard), s.elem, s.facts, s.origin))
        return Seq(segs)


# ---------------------------------------------------------------- equality of content

class NotComparable(Exception):
    pass


def q_forall(var, body):
    body = z3.simplify(T(body))
    if is_true(body): return body
    return z3.ForAll([var], body)


def eq_seq(a, b, objeq, use_tok=True):
    if a is b: return z3.BoolVal(True)
    if use_tok and a.tok is not None and b.tok is not None and a.tok.sort() == b.tok.sort():
        return a.tok == b.tok
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        if len(ca) != len(cb): return z3.BoolVal(False)
        return And(*[eq(x, y, objeq) for x, y in zip(ca, cb)])
    A, B = norm_segs(a), norm_segs(b)
    if len(A) == len(B):
        out = []
        for x, y in zip(A, B):
            if isinstance(x, GU) and isinstance(y, GU):
                out.append(And(T(x.g) == T(y.g), Implies(x.g, eq(x.v, y.v, objeq))))
            elif isinstance(x, FMap) and isinstance(y, FMap):
                v = z3.Int('q!%d' % next(_counter))
                rng = And(v >= 0, v < x.n)
                gx, gy = x.guard_at(v), y.guard_at(v)
                body = And(T(gx) == T(gy), Implies(gx, eq(x.at(v), y.at(v), objeq)))
                facts = And(*(x.facts_at(v) + y.facts_at(v)))
                out.append(x.n == y.n)
                out.append(q_forall(v, Implies(And(rng, facts), body)))
            else:
                break
        else:
            return And(*out)
    # an empty sequence against anything
    if not A or not B:
        out = []
        for s in A or B:
            if isinstance(s, GU): out.append(Not(s.g))
            else:
                v = z3.Int('q!%d' % next(_counter))
                out.append(q_forall(v, Implies(And(v >= 0, v < s.n, *s.facts_at(v)), Not(s.guard_at(v)))))
        return And(*out)
    # sparse guarded units: compare by position when at most one side is unconditional
    if all(isinstance(s, GU) for s in A + B):
        return eq_guarded(A, B, objeq)
    raise NotComparable('sequences of different structure')


def norm_segs(q):
    out = []
    for s in q.segs:
        if isinstance(s, GU) and is_false(z3.simplify(T(s.g))): continue
        if isinstance(s, FMap) and (is_false(z3.simplify(T(s.guard))) or is_true(z3.simplify(s.n <= 0))): continue
        out.append(s)
    return out


def eq_guarded(A, B, objeq):
    """two lists of guarded units, equal as lists: dynamic programming over positions"""
    from functools import lru_cache
    import sys
    if len(A) * len(B) > 4000: raise NotComparable('guarded sequences too long')
    memo = {}
    def go(i, j):
        if (i, j) in memo: return memo[i, j]
        if i == len(A): r = And(*[Not(s.g) for s in B[j:]])
        elif j == len(B): r = And(*[Not(s.g) for s in A[i:]])
        else:
            x, y = A[i], B[j]
            e = eq(x.v, y.v, objeq)
            r = Or(And(Not(x.g), go(i + 1, j)), And(x.g, Not(y.g), go(i, j + 1)), And(x.g, y.g, e, go(i + 1, j + 1)))
        memo[i, j] = r
        return r
    return go(0, 0)


def eq_dict(a, b, objeq):
    if a is b: return z3.BoolVal(True)
    if a.is_fin() and b.is_fin():
        out = []
        for k in list(a.ent) + [k for k in b.ent if k not in a.ent]:
            pa, va = a.ent.get(k, (z3.BoolVal(False), None))
            pb, vb = b.ent.get(k, (z3.BoolVal(False), None))
            pa, pb = T(pa), T(pb)
            if is_false(pa) and is_false(pb): continue
            out.append(pa == pb)
            if k in a.ent and k in b.ent:
                out.append(Implies(And(pa, pb), eq(va, vb, objeq)))
        return And(*out)
    # pointwise
    if a.keysort is None and b.keysort is None: raise NotComparable('dicts')
    k = z3.Const('k!%d' % next(_counter), a.keysort if a.keysort is not None else b.keysort)
    (ha, va), (hb, vb) = dict_at(a, k), dict_at(b, k)
    if va is None or vb is None:
        return z3.ForAll([k], ha == hb)
    return z3.ForAll([k], And(ha == hb, Implies(And(ha, hb), eq(va, vb, objeq))))


def keyterm(k):
    k = lift(k)
    if isinstance(k, (SStr, SInt, SOpaque, SRec)): return k.t
    raise NotComparable('key %r' % (k,))


def dict_at(d, k):
    """(present, value) of symbolic dict d at key term k (value None when nothing is known)"""
    has = d.base.has(k) if d.base is not None else z3.BoolVal(False)
    val = d.base.get(k) if d.base is not None else None
    for kk, (p, v) in d.ent.items():
        try:
            kt = keyterm(kk)
        except NotComparable:
            continue
        if kt.sort() != k.sort(): continue
        hit = And(p, k == kt)
        val = v if val is None else ite(hit, v, val)
        has = Or(hit, has)
    for g, kk, v in d.log:
        hit = And(g, k == keyterm(kk))
        val = v if val is None else ite(hit, v, val)
        has = Or(hit, has)
    return has, val


def eq(a, b, objeq=None):
    """z3 Bool: the values are equal as Python values (content for heap objects; objeq(a, b) may override for objects)"""
    if a is b and not isinstance(a, SUnion): return z3.BoolVal(True)
    if isinstance(a, SUnion): return Or(*[And(g, eq(v, b, objeq)) for g, v in a.alts])
    if isinstance(b, SUnion): return Or(*[And(g, eq(a, v, objeq)) for g, v in b.alts])
    if isinstance(a, STable) or isinstance(b, STable):
        if isinstance(a, STable) and isinstance(b, STable) and a.table == b.table:
            if a.t.eq(b.t): return z3.BoolVal(True)
            if distinct_table(a.table): return a.t == b.t
        return eq(expand(a), expand(b), objeq)
    if objeq is not None and not (isinstance(a, Sym) or isinstance(b, Sym)):
        r = objeq(a, b)
        if r is not None: return r
    if isinstance(a, HObj) or isinstance(b, HObj):
        if isinstance(a, HObj) and isinstance(b, HObj) and a.cls is b.cls:
            ks = [k for k in set(a.fields) | set(b.fields) if not k.startswith('_lazy__')]
            for k in ks:
                if k not in a.fields or k not in b.fields: return z3.BoolVal(False)
            if a.ref is not None and a.ref == b.ref:
                ta, tb = a.fields['_lazy__token'].t, b.fields['_lazy__token'].t
                if ta.eq(tb): return z3.BoolVal(True)
                return Or(ta == tb, *[And(*[eq(a.fields[k], b.fields[k], objeq) for k in sorted(ks)])])
            return And(*[eq(a.fields[k], b.fields[k], objeq) for k in sorted(ks)])
        return z3.BoolVal(False)
    if isinstance(a, VExc) and isinstance(b, VExc):
        return z3.BoolVal(a.cls is b.cls)
    la, lb = lift(a), lift(b)
    if isinstance(la, SBool) and isinstance(lb, SBool): return la.t == lb.t
    if isinstance(la, SBool) and isinstance(lb, (SInt, SReal)): la = SInt(If(la.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(lb, SBool) and isinstance(la, (SInt, SReal)): lb = SInt(If(lb.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(la, (SInt, SReal)) and isinstance(lb, (SInt, SReal)): return la.t == lb.t
    if isinstance(la, SApp) and isinstance(lb, SApp) and la.op == lb.op and len(la.args) == len(lb.args):
        try: return Or(la.t == lb.t, And(*[eq(x, y, objeq) for x, y in zip(la.args, lb.args)]))
        except NotComparable: pass
    if isinstance(la, SStr) and isinstance(lb, SStr): return la.t == lb.t
    if isinstance(la, SSet) and isinstance(lb, SSet): return la.t == lb.t
    if isinstance(la, SOpaque) and isinstance(lb, SOpaque):
        return la.t == lb.t if la.t.sort() == lb.t.sort() else z3.BoolVal(False)
    if isinstance(la, SRec) and isinstance(lb, SRec):
        if la.rel is lb.rel: return la.t == lb.t
        if la.nullable and lb.nullable: return And(la.t == -1, lb.t == -1)
        return z3.BoolVal(False)
    if isinstance(la, SRec) and b is None: return la.t == -1 if la.nullable else z3.BoolVal(False)
    if isinstance(lb, SRec) and a is None: return lb.t == -1 if lb.nullable else z3.BoolVal(False)
    if type(a) is tuple and type(b) is tuple:
        return And(*[eq(x, y, objeq) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
    if isinstance(a, SView) or isinstance(b, SView): raise NotComparable('views of a dict')
    if isinstance(a, (HList, STuple)) and isinstance(b, (HList, STuple)):
        if type(a) is not type(b): return z3.BoolVal(False)
        return eq_seq(a.seq, b.seq, objeq)
    if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)):
        return eq_seq(to_seq(a), to_seq(b), objeq)
    if isinstance(a, HList) and isinstance(b, list): return eq_seq(a.seq, to_seq(b), objeq)
    if isinstance(b, HList) and isinstance(a, list): return eq_seq(to_seq(a), b.seq, objeq)
    if isinstance(a, HDict) and isinstance(b, HDict): return eq_dict(a, b, objeq)
    if isinstance(a, HDict) and isinstance(b, dict): return eq_dict(a, HDict({k: (z3.BoolVal(True), v) for k, v in b.items()}), objeq)
    if isinstance(b, HDict) and isinstance(a, dict): return eq(b, a, objeq)
    if isinstance(a, HSet) or isinstance(b, HSet): raise NotComparable('sets')
    if isinstance(a, HIter) or isinstance(b, HIter): return z3.BoolVal(a is b)
    if isinstance(a, SSet) and isinstance(b, (set, frozenset)) or isinstance(b, SSet) and isinstance(a, (set, frozenset)): raise NotComparable('sets')
    if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('content of a list that a symbolic loop is building')
    if isinstance(a, (Sym,) + HEAP) or isinstance(b, (Sym,) + HEAP):
        return z3.BoolVal(False)
    try:
        return z3.BoolVal(bool(a == b))
    except Exception:
        return z3.BoolVal(a is b)


def to_seq(v):
    if isinstance(v, (HList, STuple, HSet)): return v.seq
    if isinstance(v, (tuple, list)): return Seq([GU(z3.BoolVal(True), x) for x in v])
    raise Unsupported('not a sequence: %r' % (v,))
