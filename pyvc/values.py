"""Symbolic values of the deductive verifier.

A Python value in the interpreter is either a plain ("concrete") Python object, or one of the classes below.
Tuples of known length stay Python tuples whose items may be symbolic."""
import z3

_SIMPL = z3.simplify


class Unsupported(Exception):
    """The construct is outside the verified subset: the function is reported as not translatable, never as proved or refuted."""


class Sym(object):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t


class SInt(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SInt(%s)' % self.t


class SReal(Sym):
    """float treated as the exact rational it denotes; arithmetic is done by native float on concrete operands only"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SReal(%s)' % self.t


class SStr(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SStr(%s)' % self.t


class SApp(SStr):
    """the text some trusted operation yields, known only by the operation and its arguments: equal arguments, equal text"""
    __slots__ = ('op', 'args')
    def __init__(self, t, op, args): self.t, self.op, self.args = t, op, tuple(args)


class SRec(Sym):
    """a record of the known relation rel, t = index in rel.records; -1 = None (only when nullable)"""
    __slots__ = ('rel', 't', 'nullable')
    def __init__(self, rel, t, nullable=False): self.rel, self.t, self.nullable = rel, t, nullable
    def __repr__(self): return 'SRec(%s,%s)' % (self.rel.__name__, self.t)


class SOpaque(Sym):
    """a value about which only identity/equality is known"""
    __slots__ = ('t', 'tag')
    def __init__(self, t, tag): self.t, self.tag = t, tag
    def __repr__(self): return 'SOpaque(%s)' % self.t


class SSet(Sym):
    """an opaque finite set (only subset, intersection and size are used on it)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t


class SUnion(Sym):
    """exactly one of the guards holds; resolved by forking the path when it is used"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'SUnion(%r)' % (self.alts,)


class GU(object):
    """sequence segment: the value v, present iff g"""
    __slots__ = ('g', 'v')
    def __init__(self, g, v): self.g, self.v = g, v


class FMap(object):
    """sequence segment: [elem(i) for i in range(n) if guard(i)], var is the bound index; facts hold for every index in range"""
    __slots__ = ('var', 'n', 'guard', 'elem', 'facts', 'origin', 'upd')
    def __init__(self, var, n, guard, elem, facts=(), origin=None):
        self.var, self.n, self.guard, self.elem, self.facts, self.origin, self.upd = var, n, guard, elem, tuple(facts), origin, None

    def at(self, idx):
        return subst(self.elem, [(self.var, idx)])

    def guard_at(self, idx):
        return z3.substitute(self.guard, (self.var, idx)) if z3.is_expr(self.guard) else self.guard

    def facts_at(self, idx):
        return [z3.substitute(f, (self.var, idx)) for f in self.facts]


class Seq(object):
    __slots__ = ('segs', 'tok')
    def __init__(self, segs, tok=None): self.segs, self.tok = list(segs), tok

    def concrete(self):
        """list of values when the length is known, else None"""
        out = []
        for s in self.segs:
            if isinstance(s, FMap) or not is_true(s.g):
                return None
            out.append(s.v)
        return out


class STuple(Sym):
    """an immutable sequence of symbolic length"""
    __slots__ = ('seq', 'src')
    def __init__(self, seq, src=()): self.seq, self.src = seq, src      # src: lists it reads lazily, with whether index by index


class SView(STuple):
    """d.keys(), d.values() or d.items(): what the dict holds when it is read"""
    __slots__ = ('kind', 'of', 'read')
    def __init__(self, kind, of, read): self.kind, self.of, self.read, self.src = kind, of, read, ((of, False),)
    @property
    def seq(self): return self.read(False)


class STable(Sym):
    """the element of a module-level table of tuples at index t (in range)"""
    __slots__ = ('table', 't')
    def __init__(self, table, t): self.table, self.t = table, t


class HObj(object):
    """ref: name of the template in REFS when the object is known by its token only (its fields are functions of the token)"""
    ref = None
    def __init__(self, cls, fields, ref=None):
        self.cls, self.fields = cls, fields
        if ref is not None: self.ref = ref
    def __repr__(self): return '<%s %s>' % (self.cls.__name__, ','.join(self.fields))


class HList(object):
    def __init__(self, seq): self.seq = seq
    def __repr__(self): return '<list %s>' % len(self.seq.segs)


class HSet(object):
    """a set built by the code, kept as the sequence of inserted values"""
    def __init__(self, seq): self.seq = seq


class Ent(dict):
    """the entries of a dict; order: None - they were inserted in the order kept here (those that are present),
    'unknown' - in some other order, a boolean - what is given to the code: it is verified for this order and for its reverse"""
    __slots__ = ('order',)
    def __init__(self, e=()):
        dict.__init__(self, e)
        self.order = getattr(e, 'order', None)


class HDict(object):
    """a dict: ent = {concrete key: (present, value)}, plus optionally a symbolic part
    base = (has(key)->z3 Bool, get(key)->value) and log = [(guard, key value, value)] of later updates with symbolic keys"""
    def __init__(self, ent=None, base=None, log=None, keysort=None):
        self.ent, self.base, self.log, self.keysort = Ent(ent if ent is not None else ()), base, list(log or []), keysort

    def is_fin(self):
        return self.base is None and not self.log


class IntKey(Sym):
    """a string that is the decimal form of the integer t (JSON object key)"""
    def __init__(self, t): self.t = t


class HItems(object):
    """a mapping read only through its items"""
    def __init__(self, seq): self.seq = seq


class HIter(object):
    """an iterator (generator, enumerate, zip, ...): read once, and evaluated when it is read.
    run(whole) yields its elements (whole 'any': in any order, repeated or not); src: lists it reads, with whether index by index; deps() = what its code refers to
    (None: it runs no code of its own); state: 'new', 'part' (something may be left) or 'done'"""
    def __init__(self, kind, run, src=(), deps=None, inner=()):
        self.kind, self.run, self.src, self.deps, self.inner = kind, run, src, deps, inner
        self.state, self.seq, self.saw = 'new', None, None
    def __repr__(self): return '<%s>' % self.kind.__name__


def sources(v):
    """containers an iterable reads while it is iterated, with whether index by index"""
    if isinstance(v, (HList, HDict, HSet)): return ((v, isinstance(v, HList)),)
    return v.src if isinstance(v, (STuple, HIter)) else ()


class VExc(object):
    def __init__(self, cls, args=(), kwargs=None): self.cls, self.args, self.kwargs = cls, args, dict(kwargs or {})
    def __repr__(self): return 'VExc(%s)' % self.cls.__name__


class VClosure(object):
    def __init__(self, node, env, name, defaults=(), kwdefaults=None): self.node, self.env, self.name, self.defaults, self.kwdefaults = node, env, name, defaults, kwdefaults or {}


class VBound(object):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class Poison(object):
    def __init__(self, why): self.why = why


HEAP = (HObj, HList, HSet, HDict, HIter)


_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)     # equal terms are the same term
_T, _F = _TRUE.ast.value, _FALSE.ast.value


def T(b):
    return b if isinstance(b, z3.ExprRef) else _TRUE if b else _FALSE


def is_true(b): return b is True or isinstance(b, z3.ExprRef) and b.ast.value == _T
def is_false(b): return b is False or isinstance(b, z3.ExprRef) and b.ast.value == _F


def nary(mk, a):
    return z3.BoolRef(mk(_TRUE.ctx_ref(), len(a), (z3.Ast * len(a))(*[x.ast for x in a])), _TRUE.ctx)


def And(*a):
    out = []
    for x in a:
        x = T(x)
        v = x.ast.value
        if v == _F: return _FALSE
        if v != _T: out.append(x)
    return nary(z3.Z3_mk_and, out) if len(out) > 1 else out[0] if out else _TRUE


def Or(*a):
    out = []
    for x in a:
        x = T(x)
        v = x.ast.value
        if v == _T: return _TRUE
        if v != _F: out.append(x)
    return nary(z3.Z3_mk_or, out) if len(out) > 1 else out[0] if out else _FALSE


def Not(a):
    a = T(a)
    if is_true(a): return _FALSE
    if is_false(a): return _TRUE
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    c = T(c)
    if is_true(c): return a
    if is_false(c): return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return a
    return z3.If(c, a, b)


LIVE = lambda o: False       # objects of the current heap: they are who they are, whatever the index
COPIES = None                # while one iteration is entered: objects it created -> their copies


def subst(v, pairs):
    """substitute z3 constants inside a value (heap objects outside the heap are copied: they are never written to)"""
    if isinstance(v, HEAP):
        if COPIES is not None and id(v) in COPIES: return COPIES[id(v)](v, pairs)
        if LIVE(v): return v
    if isinstance(v, (bool, int, float, str, bytes, type(None), type)): return v
    s = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
    if z3.is_expr(v): return s(v)
    if isinstance(v, SApp): return SApp(s(v.t), v.op, [subst(x, pairs) for x in v.args])
    if isinstance(v, (SBool, SInt, SReal, SStr, SSet, IntKey)): return type(v)(s(v.t))
    if isinstance(v, SRec): return SRec(v.rel, s(v.t), v.nullable)
    if isinstance(v, SOpaque): return SOpaque(s(v.t), v.tag)
    if isinstance(v, STable): return STable(v.table, s(v.t))
    if isinstance(v, SUnion): return SUnion([(s(g), subst(x, pairs)) for g, x in v.alts])
    if type(v) is tuple: return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq): return subst_seq(v, pairs)
    if isinstance(v, STuple): return STuple(subst_seq(v.seq, pairs))
    if isinstance(v, HIter): raise Unsupported('an iterator as element of a symbolic sequence')
    if isinstance(v, HObj): return HObj(v.cls, {k: subst(x, pairs) for k, x in v.fields.items()}, v.ref)
    if isinstance(v, HList): return HList(subst_seq(v.seq, pairs))
    if isinstance(v, HSet): return HSet(subst_seq(v.seq, pairs))
    if isinstance(v, HItems): return HItems(subst_seq(v.seq, pairs))
    if isinstance(v, HDict):
        b = v.base
        nb = None if b is None else SubstBase(b, pairs)
        ent = Ent({k: (s(p), subst(x, pairs)) for k, (p, x) in v.ent.items()})
        ent.order = v.ent.order if v.ent.order is None or isinstance(v.ent.order, str) else s(v.ent.order)
        return HDict(ent, nb,
                     [(s(g), subst(k, pairs), subst(x, pairs)) for g, k, x in v.log], v.keysort)
    if isinstance(v, VExc): return VExc(v.cls, tuple(subst(x, pairs) for x in v.args), {k: subst(x, pairs) for k, x in v.kwargs.items()})
    if isinstance(v, VBound): return VBound(v.fn, subst(v.self_, pairs))
    return v


REFS = {}          # name -> (token variable, object whose fields are functions of it)
Token = z3.DeclareSort('Object')


def instance(name, token):
    """the abstract object with this token"""
    tv, o = REFS[name]
    return subst(o, [(tv, token)])


class Base(object):
    """symbolic part of a dict with string keys, given by a template over the key variable"""
    def __init__(self, keyvar, has, val): self.keyvar, self.has_t, self.val_t = keyvar, has, val
    def has(self, k): return z3.substitute(self.has_t, (self.keyvar, k))
    def get(self, k): return subst(self.val_t, [(self.keyvar, k)])


class LessBase(object):
    """the same dict without one key"""
    def __init__(self, base, key): self.base, self.key = base, key
    def has(self, k): return z3.And(self.base.has(k), k != self.key)
    def get(self, k): return self.base.get(k)


class SubstBase(object):
    def __init__(self, base, pairs): self.base, self.pairs = base, pairs
    def has(self, k):
        v = z3.FreshConst(k.sort(), 'k')
        return z3.substitute(z3.substitute(self.base.has(v), *self.pairs), (v, k))
    def get(self, k):
        v = z3.FreshConst(k.sort(), 'k')
        return subst(subst(self.base.get(v), self.pairs), [(v, k)])


def subst_seq(q, pairs):
    s = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
    segs = []
    for g in q.segs:
        if isinstance(g, GU):
            segs.append(GU(s(g.g), subst(g.v, pairs)))
        else:
            segs.append(FMap(g.var, s(g.n), s(g.guard), subst(g.elem, pairs), [s(f) for f in g.facts], subst(g.origin, pairs) if g.origin is not None else None))
    return Seq(segs, s(q.tok) if q.tok is not None else None)
