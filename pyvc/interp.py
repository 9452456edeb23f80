"""Symbolic interpreter of the Python subset used by the code under verification.

It walks the AST of the very functions imported from the repository (found through their code objects).  Module-level data,
record tables and everything else without a symbolic operand is evaluated by running the real Python; operations with a
symbolic operand build z3 terms or fork the path.  Calls of functions under contract are replaced by their contract."""
import ast
from fractions import Fraction
import builtins
import types
import sys

import z3

from .values import *
from . import core
from .core import *
from .core import _counter

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
S = z3.StringSort()
UPPER = z3.Function('py_upper', S, S)
LOWER = z3.Function('py_lower', S, S)
STRIP = z3.Function('py_strip', S, S)
REPLACE_ALL = z3.Function('py_replace_all', S, S, S, S)
REPLACE_FIRST = z3.Function('py_replace_first', S, S, S, S)
INTSTR = z3.Function('py_str_int', z3.IntSort(), S)
ElemSort = z3.DeclareSort('PyElem')
SetSort = z3.SetSort(ElemSort)
EMPTY = z3.EmptySet(ElemSort)
SUBSET, INTER, UNION, DIFF = z3.IsSubset, z3.SetIntersect, z3.SetUnion, z3.SetDifference
CARD = z3.Function('set_card', SetSort, z3.IntSort())
HASH2 = z3.Function('hash_pair', z3.IntSort(), z3.IntSort(), z3.IntSort())
ListTok = z3.DeclareSort('ListTok')
LISTRANK = z3.Function('list_rank', ListTok, z3.RealSort())      # the strict total order of lists of texts, embedded in the reals


def LISTLT(a, b): return LISTRANK(a) < LISTRANK(b)


_FILE_AST = {}


def file_funcs(filename):
    if filename not in _FILE_AST:
        src = open(filename, encoding='utf-8').read()
        tree = ast.parse(src)
        d = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = n.decorator_list[0].lineno
                d.setdefault(ln, []).append(n)
        _FILE_AST[filename] = d
    return _FILE_AST[filename]


def func_node(fn):
    code = fn.__code__
    cands = file_funcs(code.co_filename).get(code.co_firstlineno, [])
    name = code.co_name
    for n in cands:
        if isinstance(n, ast.FunctionDef) and n.name == name: return n
    lam = [n for n in cands if isinstance(n, ast.Lambda)]
    if name == '<lambda>' and len(lam) == 1: return lam[0]
    raise Unsupported('source of %s not found' % fn)


def is_generator(node):
    """yield in the function itself (not in nested functions)"""
    todo = list(node.body) if isinstance(node, ast.FunctionDef) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_LOCALS = {}


def local_names(node):
    k = id(node)
    if k not in _LOCALS:
        names, glob = set(), set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
        if a.vararg: names.add(a.vararg.arg)
        if a.kwarg: names.add(a.kwarg.arg)
        todo = list(node.body) if isinstance(node, ast.FunctionDef) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                continue
            if isinstance(n, ast.Lambda): continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                todo.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.Global): glob |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names: names.add((al.asname or al.name).split('.')[0])
            todo.extend(ast.iter_child_nodes(n))
        _LOCALS[k] = (names - glob, glob, node)
    return _LOCALS[k]


def free_names(n):
    """names an expression or a function reads from around it"""
    if isinstance(n, ast.Name): return {n.id} if isinstance(n.ctx, ast.Load) else set()
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        inner = [c for g in n.generators for c in g.ifs] + [g.iter for g in n.generators[1:]] + ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])
        return free_names(n.generators[0].iter) | (set().union(*map(free_names, inner)) - bound)
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        body = n.body if isinstance(n.body, list) else [n.body]
        out = set().union(*map(free_names, body)) - (local_names(n)[0] - nonlocals(n))
        return out | set().union(set(), *map(free_names, n.args.defaults), *map(free_names, [d for d in n.args.kw_defaults if d is not None]))
    return set().union(set(), *map(free_names, ast.iter_child_nodes(n)))


def kind_of(v):
    """kinds that neither compare with < nor add up with one another"""
    if v is None: return 'none'
    if isinstance(v, (bool, int, float, SBool, SInt, SReal)): return 'number'
    if isinstance(v, (str, SStr)): return 'text'
    if isinstance(v, (list, HList)): return 'list'
    if type(v) is tuple or isinstance(v, STuple) and not isinstance(v, SView): return 'tuple'
    if isinstance(v, (dict, HDict)): return 'dict'


def nonlocals(n):
    return {x for k in ast.walk(n) if isinstance(k, ast.Nonlocal) for x in k.names}


def same_keys(d, a, b, it):
    """a dict changed while it is iterated, but only at keys it has, and only its keys are read"""
    return isinstance(d, HDict) and (it is d or isinstance(it, SView) and it.kind == 'keys') and a[1] is b[1] and not a[2] and not b[2] and a[0].keys() == b[0].keys() \
        and all(T(p).eq(T(b[0][k][0])) for k, (p, v) in a[0].items())


SAFE_BUILTINS = {zip, enumerate, len, sum, max, min, abs, range, tuple, list, set, frozenset, sorted, all, any, int, str, bool, reversed, dict}
SAFE_METHODS = {'items', 'keys', 'values', 'get', 'index', 'count', 'startswith', 'endswith', 'issubset', 'issuperset', 'union', 'intersection', 'strip', 'lower', 'upper', 'split'}
_PURE = {}


def pure_native(fn, busy=()):
    """the function (and all it calls) only computes: no stores but to local names, no generators, only known calls; its value
    on closed arguments is then what CPython computes"""
    if fn in _PURE: return _PURE[fn]
    if fn in busy: return True
    try: node = func_node(fn)
    except Unsupported: return False
    ok = isinstance(node, ast.FunctionDef) and not fn.__closure__ and not is_generator(node)
    for n in ast.walk(node) if ok else ():
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.Import, ast.ImportFrom, ast.ClassDef, ast.Lambda, ast.Await, ast.NamedExpr)): ok = False
        if isinstance(n, ast.FunctionDef) and n is not node: ok = False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load): ok = False
        if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name): ok = False
        if isinstance(n, ast.Call):
            f, o = n.func, None
            if isinstance(f, ast.Name) and f.id not in local_names(node)[0]: o = fn.__globals__.get(f.id, getattr(builtins, f.id, None))
            elif isinstance(f, ast.Attribute):
                m = fn.__globals__.get(f.value.id) if isinstance(f.value, ast.Name) and f.value.id not in local_names(node)[0] else None
                if isinstance(m, types.ModuleType): o = getattr(m, f.attr, None)
                elif f.attr in SAFE_METHODS: continue
            if isinstance(o, types.FunctionType) and pure_native(o, tuple(busy) + (fn,)): continue
            if not (o in SAFE_BUILTINS if isinstance(o, (type, types.BuiltinFunctionType)) else False): ok = False
    # augmented assignment to a list argument would change it: arguments are copies, module data is not
    if not busy: _PURE[fn] = ok
    return ok


def closed(v):
    """Python value without symbolic parts, or raises"""
    if isinstance(v, HList): return [closed(x) for x in need_concrete(v.seq)]
    if isinstance(v, SView): raise NotClosed()
    if isinstance(v, STuple): return tuple(closed(x) for x in need_concrete(v.seq))
    if type(v) is tuple: return tuple(closed(x) for x in v)
    if has_sym(v): raise NotClosed()
    return v


class NotClosed(Exception):
    pass


def need_concrete(q):
    c = q.concrete()
    if c is None: raise NotClosed()
    return c


def sharing(v, new):
    """which of the new objects in a value are the same: where they are, numbered in the order they are met"""
    num = {}

    def walk(x):
        out = []
        if isinstance(x, HEAP) and id(x) in new:
            out.append(num.setdefault(id(x), len(num)))
            if out[-1] < len(num) - 1: return tuple(out)
        if type(x) is tuple: parts = list(enumerate(x))
        elif isinstance(x, HObj): parts = sorted(x.fields.items(), key=lambda kv: kv[0])
        elif isinstance(x, (HList, HSet, STuple)): parts = list(enumerate(s.v if isinstance(s, GU) else s.elem for s in x.seq.segs))
        elif isinstance(x, HDict): parts = [(('k', k), y) for k, (p, y) in x.ent.items()] + [(('w', j), y) for j, (g, k, y) in enumerate(x.log)]
        elif isinstance(x, SUnion): parts = list(enumerate(y for g, y in x.alts))
        else: parts = []
        for k, y in parts:
            if isinstance(y, HEAP + (SUnion, STuple, tuple)):
                inner = walk(y)
                if inner: out.append((k, inner))
        return tuple(out)
    return walk(v)


class Env(object):
    def __init__(self, localnames, globals_, closure=None, parent=None, module=None, globnames=()):
        self.vars = {}
        self.localnames = localnames
        self.globals = globals_
        self.closure = closure or {}
        self.parent = parent
        self.module = module
        self.globnames = globnames
        self.yields = None
        self.owner = None        # class that defines the running method (for super())


def lift_rec(v):
    if isinstance(v, SRec): return v.t
    if is_record(v): return z3.IntVal(v._relation.records.index(v))
    return None


def wrap_key(t):
    if t.sort() == z3.StringSort(): return SStr(t)
    if t.sort() == z3.IntSort(): return SInt(t)
    return SOpaque(t, str(t.sort()))


def f_named(f, named):
    return isinstance(f, types.FunctionType) and f in named


class Interp(object):
    MAXDEPTH = 60

    def __init__(self, ctx, roots):
        self.ctx = ctx
        self.roots = tuple(roots)             # directories whose functions are interpreted
        self.contracts = {}                   # function object -> handler(interp, args, kwargs)
        self.enums, self.nearests = [], []
        self.hooks = {}                       # callable -> handler: intrinsics and trusted externals
        self.refs = {}            # kind of abstract object -> its template in REFS
        self.tokens = {}          # unchanged objects given to the goal: constants that stand for them
        self.named = {}           # specification functions kept closed: function -> class of its result
        self.closed, self.keep, self.entry = {}, [], {}
        self.attr_hooks = []                  # handlers (interp, obj, name) -> value or NotImplemented
        self.regex_hooks = []     # handlers for methods of compiled patterns on symbolic text
        self.str_hooks = {}                   # (method name) -> handler for symbolic strings
        self.disabled = set()
        self.depth = 0
        self.called = set()                   # functions interpreted (inlined)
        self.used_contracts = set()
        self.used_trusted = set()
        self.no_inline_natively = set()
        self.unroll = 0                       # ranges up to this length are unrolled
        self.cards = []
        self.frames = []
        self.homes = {}                       # id -> (value of a symbolic dict, dict, key term, base)

    # ------------------------------------------------------------ helpers
    def raise_(self, cls, *args):
        raise SymRaise(VExc(cls, args))

    def new_list(self, values=()):
        return self.ctx.reg(HList(Seq([GU(TRUE, v) for v in values])))

    def resolve(self, v):
        """fork until v is not a union / maybe-None record"""
        while isinstance(v, (SUnion, STable)):
            if isinstance(v, STable):
                v = expand(v)
                continue
            k = self.ctx.choose([g for g, x in v.alts])
            v = v.alts[k][1]
        if isinstance(v, Poison): raise Unsupported('unknown value: %s' % v.why)
        return v

    def resolve_null(self, v):
        v = self.resolve(v)
        if isinstance(v, SRec) and v.nullable:
            if self.ctx.branch(v.t == -1): return None
            return SRec(v.rel, v.t)
        return v

    def concretize(self, v):
        """fork over the values of a record"""
        v = self.resolve_null(v)
        if isinstance(v, SRec):
            t = z3.simplify(v.t)
            if z3.is_int_value(t): return v.rel.records[t.as_long()]
            k = self.ctx.choose([v.t == j for j in range(len(v.rel.records))])
            return v.rel.records[k]
        if isinstance(v, SBool): return self.ctx.branch(v.t)
        if isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t): return t.as_long()
        if isinstance(v, SStr):
            t = z3.simplify(v.t)
            if z3.is_string_value(t): return unescape(t.as_string())
        return v

    def simp(self, v):
        """turn ground symbolic scalars into Python values"""
        if isinstance(v, SBool):
            t = z3.simplify(v.t)
            if is_true(t): return True
            if is_false(t): return False
        elif isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t): return t.as_long()
        elif isinstance(v, SStr):
            t = z3.simplify(v.t)
            if z3.is_string_value(t): return unescape(t.as_string())
        elif isinstance(v, SRec):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return None if t.as_long() == -1 else v.rel.records[t.as_long()]
        return v

    def truth(self, v):
        """z3 Bool term or Python bool"""
        v = self.resolve(v)
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SReal): return v.t != 0
        if isinstance(v, SStr): return v.t != sv('')
        if isinstance(v, SRec): return v.t != -1 if v.nullable else True
        if isinstance(v, (HList, STuple, HSet)): return self.nonempty(v.seq)
        if isinstance(v, HIter): return True
        if isinstance(v, HDict):
            if v.is_fin(): return Or(*[p for p, x in v.ent.values()])
            raise Unsupported('truth of symbolic dict')
        if isinstance(v, HObj):
            m = self.class_attr(v.cls, '__bool__') or self.class_attr(v.cls, '__len__')
            if m is not None: raise Unsupported('object truth')
            return True
        if isinstance(v, SSet): return v.t != EMPTY
        if isinstance(v, (VClosure, VBound, VExc)): return True
        if isinstance(v, SOpaque): raise Unsupported('truth of opaque value')
        if type(v) is tuple: return len(v) > 0
        return bool(v)

    def nonempty(self, q):
        out = []
        for s in q.segs:
            if isinstance(s, GU): out.append(s.g)
            else:
                if is_true(T(s.guard)): out.append(s.n > 0)
                else:
                    v = z3.Int('w!%d' % next(_counter))
                    out.append(self.ctx.exists(v, s.n, s.guard_at(v), s.facts_at(v)))
        return Or(*out)

    def test(self, v):
        t = self.truth(v)
        if isinstance(t, bool): return t
        return self.ctx.branch(t)

    def boolean(self, t):
        if isinstance(t, bool): return t
        t = z3.simplify(t)
        if is_true(t): return True
        if is_false(t): return False
        return SBool(t)

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__: return c.__dict__[name]
        return None

    def interpretable(self, fn):
        return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(self.roots)

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        if name in e.localnames or name[0] == '%' and name in e.vars:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison): raise Unsupported('value of %s after a symbolic loop (%s)' % (name, v.why))
                return v
            self.raise_(UnboundLocalError, name)
        e = env.parent
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison): raise Unsupported('value of %s after a symbolic loop' % name)
                return v
            if name in e.localnames: raise Unsupported('variable %s of an outer function before it is assigned' % name)
            e = e.parent
        if name in env.closure: return env.closure[name]
        p = env.parent
        while p is not None:
            if name in p.closure: return p.closure[name]
            p = p.parent
        k = (env.module, name)
        if k in self.ctx.overlay: return self.ctx.overlay[k]
        if name in env.globals: return env.globals[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, name)

    def assign_name(self, name, v, env):
        if name in env.globnames:
            self.ctx.overlay[(env.module, name)] = v
            self.ctx.wlog.append(None)
            return
        env.vars[name] = v

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = self.resolve(f)
        if isinstance(f, BuiltinMethod):
            return self.method(f.o, f.name, args, kwargs)
        if isinstance(f, VBound):
            return self.call(f.fn, (f.self_,) + tuple(args), kwargs)
        if isinstance(f, VClosure):
            return self.run_closure(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        try:
            hashable = f in self.hooks
        except TypeError:
            hashable = False
        if f_named(f, self.named):
            r = self.opaque(f, args, kwargs)
            if r is not None: return r
        if hashable:
            return self.hooks[f](self, args, kwargs)
        if isinstance(f, (type, types.FunctionType)) and f in self.contracts and f not in self.disabled:
            before = f in self.used_contracts
            self.used_contracts.add(f)
            v = self.contracts[f](self, args, kwargs)
            if v is not NOVAL: return v
            if not before: self.used_contracts.discard(f)
        if isinstance(f, Sym):
            raise Unsupported('call of symbolic value')
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if self.interpretable(f):
                r = self.evaluate(f, args, kwargs)
                if r is not NOVAL: return r
                return self.inline(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType):
            recv = getattr(f, '__self__', None)
            if recv is not None and not isinstance(recv, types.ModuleType) and (any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())):
                return self.method(recv, f.__name__, args, kwargs)
        b = BUILTINS.get(f) if self._hashable(f) else None
        if b is not None:
            return b(self, args, kwargs)
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
            if any(isinstance(a, SUnion) for a in args):
                return self.call(f, tuple(self.resolve(a) for a in args), kwargs)
            raise Unsupported('call of %r with symbolic arguments' % (f,))
        return self.native(f, args, kwargs)

    def evaluate(self, f, args, kwargs):
        """a pure function on closed arguments"""
        if self.ctx.overlay or not pure_native(f): return NOVAL
        try:
            a = [closed(x) for x in args]
            k = {n: closed(x) for n, x in kwargs.items()}
        except NotClosed:
            return NOVAL
        try: v = f(*a, **k)
        except Exception as e: raise SymRaise(VExc(type(e), e.args))
        if isinstance(v, (list, dict, set)): return NOVAL
        self.called.add(f)
        return v

    def opaque(self, f, args, kwargs):
        """a specification function kept closed: equal arguments, equal result"""
        if kwargs: return None
        cls = self.named[f]
        if isinstance(cls, types.FunctionType): return cls(self, args)
        key, terms = [f], []
        raising = ()
        if isinstance(cls, tuple): cls, raising = cls
        for a in args:
            a = self.simp(self.resolve(a))
            if isinstance(a, HEAP) and id(a) in self.entry and not (isinstance(a, HObj) and '_lazy__token' in a.fields) and self.unchanged(a, set()):
                if id(a) not in self.tokens: self.tokens[id(a)] = (a, z3.Const('given!%d' % next(_counter), z3.DeclareSort('Object')))
                key.append(id(a))
                if terms is not None: terms.append(self.tokens[id(a)][1])
            elif isinstance(a, HObj):
                if id(a) in self.entry and not self.unchanged(a, set()): return None
                tok = a.fields.get('_lazy__token')
                if tok is not None and terms is not None: terms.append(tok.t)
                else: terms = None
                if tok is None and id(a) not in self.entry: return None
                key.append(id(a))
                self.keep.append(a)
            elif isinstance(a, HDict):
                t = self.flat_view(a)
                if t is None: return None
                key.append(tuple(t))
                if terms is not None: terms.extend(t)
            elif isinstance(a, (SStr, SInt, SBool, SOpaque)):
                key.append(z3.simplify(a.t))
                if terms is not None: terms.append(key[-1])
            elif isinstance(a, (str, int, bool)):
                key.append((type(a), a))
                if terms is not None: terms.append(lift(a).t)
            else: return None
        if terms is not None and terms:
            if raising:
                code = z3.Function('raises.%s' % f.__name__, *([t.sort() for t in terms] + [z3.IntSort()]))(*terms)
                for k, e in enumerate(raising):
                    if self.ctx.branch(code == k): raise SymRaise(VExc(e, (), {}))
            return self.opaque_result(f, cls, terms)
        if raising: return None
        if self.ctx.ivars or cls == 'view': return None
        key = tuple(key)
        if key not in self.closed:
            sort = {SStr: z3.StringSort, SInt: z3.IntSort, SBool: z3.BoolSort}[cls]()
            self.closed[key] = cls(z3.Const('%s!%d' % (f.__name__, next(_counter)), sort))
        return self.closed[key]

    def token(self, a):
        """term for an argument of the goal that is as it was at the start, or for an abstract object; None for others"""
        a = self.resolve(a)
        if isinstance(a, HObj) and '_lazy__token' in a.fields: return a.fields['_lazy__token'].t
        if isinstance(a, HEAP) and id(a) in self.entry and self.unchanged(a, set()):
            if id(a) not in self.tokens: self.tokens[id(a)] = (a, z3.Const('given!%d' % next(_counter), z3.DeclareSort('Object')))
            return self.tokens[id(a)][1]
        return None

    def opaque_result(self, f, cls, terms):
        """the same as an uninterpreted function of the arguments (objects by their token, property sets by their content)"""
        sorts = [t.sort() for t in terms]
        if cls != 'view':
            sort = {SStr: z3.StringSort, SInt: z3.IntSort, SBool: z3.BoolSort}[cls]()
            return cls(z3.Function('spec.%s' % f.__name__, *(sorts + [sort]))(*terms))
        ent = {}
        for R in self.relations():
            u = z3.Function('spec.%s.%s' % (f.__name__, R.__name__), *(sorts + [z3.IntSort()]))(*terms)
            ent[R] = (u >= 0, SRec(R, z3.If(And(u >= 0, u < len(R.records)), u, z3.IntVal(0))))
        return self.ctx.reg(HDict(ent))

    def relations(self):
        from utg import relations as r
        return [p.relation for p in r.PROPERTY_TYPE.records]

    def flat_view(self, d):
        """one number per category: the value, or -1 when not specified"""
        if not d.is_fin(): return None
        rels = self.relations()
        if any(k not in rels for k in d.ent): return None
        out = []
        for R in rels:
            p, v = d.ent.get(R, (FALSE, None))
            if is_false(T(p)): out.append(z3.IntVal(-1))
            else:
                v = lift_rec(v)
                if v is None: return None
                out.append(z3.simplify(If(p, v, z3.IntVal(-1))))
        return out

    def unchanged(self, o, seen):
        """o and what it refers to are as at the start of the goal"""
        if id(o) in seen: return True
        seen.add(id(o))
        if id(o) not in self.entry: return False
        old, now = self.entry[id(o)][1], self.ctx.state(o)
        if isinstance(o, HObj):
            old = {k: v for k, v in old.items() if not k.startswith('_lazy__')}
            now = {k: v for k, v in now.items() if not k.startswith('_lazy__')}
            if old.keys() != now.keys() or any(old[k] is not now[k] for k in old): return False
            return all(self.unchanged(v, seen) for v in now.values() if isinstance(v, HEAP))
        return self.ctx.same_state(o, old, now) if isinstance(o, (HList, HSet)) else self.ctx.same_state(o, self.entry[id(o)][1], now)

    @staticmethod
    def _hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    PURE_MODULES = ('builtins', 're', 'itertools', 'functools', 'operator', 'math', 'string', 'collections')

    def native(self, f, args, kwargs):
        mod = getattr(f, '__module__', None)
        recv = getattr(f, '__self__', None)
        if isinstance(f, types.BuiltinMethodType) and recv is not None and not isinstance(recv, types.ModuleType):
            if isinstance(recv, (list, dict, set)) and f.__name__ in MUTATORS:
                raise Unsupported('mutation of a module-level container')
        elif mod is not None and mod.split('.')[0] not in self.PURE_MODULES and not isinstance(f, type) and not is_rel_method(f):
            raise Unsupported('call of unmodelled external %s.%s' % (mod, getattr(f, '__name__', f)))
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise SymRaise(VExc(type(e), e.args))

    def bind(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        pos = a.posonlyargs + a.args
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for k, p in enumerate(pos):
            if k < len(args):
                if p.arg in kwargs: self.raise_(TypeError, 'multiple values')
                out[p.arg] = args[k]
            elif p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            else:
                d = k - (len(pos) - len(defaults))
                if d < 0: self.raise_(TypeError, '%s() missing argument %s' % (name, p.arg))
                out[p.arg] = defaults[d]
        rest = args[len(pos):]
        if a.vararg:
            if any(isinstance(x, StarSeq) for x in args):
                segs = []
                for x in rest:
                    segs.extend(x.seq.segs if isinstance(x, StarSeq) else [GU(TRUE, x)])
                q = Seq(segs)
                c = q.concrete()
                out[a.vararg.arg] = tuple(c) if c is not None else STuple(q)
            else:
                out[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_(TypeError, '%s() takes fewer arguments' % name)
        for k, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs: out[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults: out[p.arg] = kwdefaults[p.arg]
            else: self.raise_(TypeError, 'missing keyword argument')
        if a.kwarg: out[a.kwarg.arg] = self.ctx.reg(HDict({k: (TRUE, v) for k, v in kwargs.items()}))
        elif kwargs: self.raise_(TypeError, '%s() got an unexpected keyword argument' % name)
        for k, v in out.items():
            if isinstance(v, StarSeq): raise Unsupported('symbolic star argument')
        return out

    def inline(self, f, args, kwargs):
        node = func_node(f)
        self.called.add(f)
        names, glob, _ = local_names(node)
        clo = {}
        if f.__closure__:
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try: clo[nm] = cell.cell_contents
                except ValueError: pass
        env = Env(names, f.__globals__, clo, None, f.__module__, glob)
        env.owner = clo.get('__class__')
        env.vars.update(self.bind(node, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kwargs, f.__name__))
        return self.run_body(node, env)

    def run_closure(self, c, args, kwargs):
        node = c.node
        names, glob, _ = local_names(node)
        env = Env(names, c.env.globals, c.env.closure, c.env, c.env.module, glob)
        env.vars.update(self.bind(node, c.defaults, c.kwdefaults, args, kwargs, c.name))
        return self.run_body(node, env)

    def run_body(self, node, env):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth = 0
            raise Unsupported('recursion too deep')
        self.frames.append(env)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if is_generator(node): return self.generator(node, env)
            try:
                self.exec_block(node.body, env)
                return None
            except ReturnEx as e:
                return e.v
        finally:
            self.frames.pop()
            self.depth -= 1

    def generator(self, node, env):
        """the iterator a generator function returns: its body runs when it is read"""
        given = list(env.vars.values()) + list((env.closure or {}).values())

        def run(whole):
            self.depth += 1
            if self.depth > self.MAXDEPTH:
                self.depth = 0
                raise Unsupported('recursion too deep')
            try:
                env.yields = self.new_list()
                try: self.exec_block(node.body, env)
                except ReturnEx: pass
                return env.yields.seq
            finally:
                self.depth -= 1
        return self.ctx.reg(HIter(types.GeneratorType, run, (), lambda: (given, self.loaded(node, env.parent))))

    def loaded(self, node, env):
        """local variables around the code: [(environment, name)]"""
        out, todo, seen = [], [(node, env)], set()
        while todo:
            n, e = todo.pop()
            if e is None or (id(n), id(e)) in seen: continue
            seen.add((id(n), id(e)))
            for x in free_names(n):
                k = e
                while k is not None and x not in k.vars: k = k.parent
                if k is None: continue
                out.append((k, x))
                v = k.vars[x]
                if isinstance(v, VClosure): todo.append((v.node, v.env))
        return out

    def reaches(self, values, targets):
        """one of the target objects is reachable from the values"""
        ids = {id(o) for o in targets}
        return any(id(v) in ids for v in self.reach(values))

    def reach(self, values, again=None):
        """everything that can be got at from the values (again: what can be got at in several ways)"""
        seen, todo = {}, list(values)
        while todo:
            v = todo.pop()
            if isinstance(v, (str, int, type(None), type)): continue
            if id(v) in seen:
                if again is not None: again.append(v)
                continue
            seen[id(v)] = v
            yield v
            if isinstance(v, (tuple, list)): todo.extend(v)
            elif isinstance(v, HObj): todo.extend(v.fields.values())
            elif isinstance(v, (HList, HSet, STuple, HItems)): todo.extend(s.v if isinstance(s, GU) else s.elem for s in v.seq.segs)
            elif isinstance(v, HDict):
                todo.extend(x for p, x in v.ent.values())
                todo.extend(x for g, k, x in v.log)
                todo.extend(v.ent)
                if hasattr(v.base, 'val_t'): todo.append(v.base.val_t)
            elif isinstance(v, HIter):
                todo.extend(o for o, al in v.src)
                todo.extend(v.inner)
                if v.deps is not None:
                    given, names = v.deps()
                    todo.extend(given)
                    todo.extend(e.vars[x] for e, x in names if x in e.vars)
            elif isinstance(v, SUnion): todo.extend(x for g, x in v.alts)
            elif isinstance(v, VBound): todo.append(v.self_)
            elif isinstance(v, BuiltinMethod): todo.append(v.o)
            elif isinstance(v, VClosure):
                todo.extend(v.defaults)
                todo.extend(v.kwdefaults.values())
                todo.extend(e.vars[x] for e, x in self.loaded(v.node, v.env))
            elif isinstance(v, types.FunctionType) and v.__closure__:
                for c in v.__closure__:
                    try: todo.append(c.cell_contents)
                    except ValueError: pass

    def aliased(self, o, env, name):
        """the object may be known by another name than the variable"""
        for e in self.frames:
            for k, v in list(e.vars.items()):
                if e is env and k == name: continue
                if self.reaches([v], [o]): return True
        return any(v is not o and self.reaches([self.ctx.state(v) if isinstance(v, HIter) else v], [o]) for v in list(self.ctx.heap.values()))

    def call_class(self, cls, args, kwargs):
        b = BUILTINS.get(cls)
        if b is not None: return b(self, args, kwargs)
        if issubclass(cls, BaseException):
            init = cls.__init__
            if kwargs or args:
                try:
                    cls(*[dummy(a) for a in args], **{k: dummy(v) for k, v in kwargs.items()})
                except Exception as e:
                    raise SymRaise(VExc(type(e)))
            return VExc(cls, args, kwargs)
        if isinstance(type(cls), type) and type(cls).__name__ == '_RelationMetaclass':
            return self.relation_call(cls, args, kwargs)
        mod = sys.modules.get(cls.__module__)
        fn = getattr(mod, '__file__', '') or ''
        if fn.startswith(self.roots):
            new = self.class_attr(cls, '__new__')
            if new is not None and new is not object.__new__: raise Unsupported('__new__')
            o = self.ctx.reg(HObj(cls, {}))
            init = self.class_attr(cls, '__init__')
            if init is not None and init is not object.__init__:
                self.call(init, (o,) + tuple(args), kwargs)
            elif args or kwargs:
                self.raise_(TypeError, 'no arguments expected')
            return o
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
            raise Unsupported('construction of %s' % cls)
        return self.native(cls, args, kwargs)

    def relation_call(self, rel, args, kwargs):
        (v,) = args
        v = self.resolve_null(v)
        if not has_sym(v): return self.native(rel, args, kwargs)
        vals = rel._external_index if hasattr(rel, '_external_index') else rel.index_value
        from rels import exceptions as rex
        conds = [eq(v, k) for k in vals]
        if not self.ctx.branch(Or(*conds)):
            raise SymRaise(VExc(rex.NotExternalValueError))
        t = z3.IntVal(rec_index(list(vals.values())[-1]))
        for c, (k, rec) in list(zip(conds, vals.items()))[-2::-1]:
            t = If(c, z3.IntVal(rec_index(rec)), t)
        return self.simp(SRec(rel, t))

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.resolve(o)
        for h in self.attr_hooks:
            r = h(self, o, name)
            if r is not NotImplemented: return r
        if isinstance(o, HObj):
            if name in o.fields: return o.fields[name]
            if name == '__class__': return o.cls
            a = self.class_attr(o.cls, name)
            if a is None or type(a).__name__ == 'member_descriptor':
                self.raise_(AttributeError, name)
            if isinstance(a, property):
                if a.fget is None: self.raise_(AttributeError, name)
                return self.call(a.fget, (o,))
            if isinstance(a, staticmethod): return a.__func__
            if isinstance(a, classmethod): return VBound(a.__func__, o.cls)
            if isinstance(a, types.FunctionType): return VBound(a, o)
            return a
        if isinstance(o, SRec):
            o2 = self.simp(self.resolve_null(o))
            if not isinstance(o2, SRec): return self.getattr(o2, name)
            o = o2
            if name == '_relation': return o.rel
            vals = []
            for rec in o.rel.records:
                try: vals.append(getattr(rec, name))
                except AttributeError: self.raise_(AttributeError, name)
            if all(v is vals[0] for v in vals): return vals[0]
            if all(isinstance(v, bool) for v in vals):
                return self.boolean(Or(*[o.t == k for k, v in enumerate(vals) if v]))
            if all(isinstance(v, (int, str)) for v in vals) or all(is_record(v) and v._relation is vals[0]._relation for v in vals):
                return merge_vals([(o.t == k, v) for k, v in enumerate(vals)])
            return getattr(self.concretize(o), name)
        if isinstance(o, VExc):
            if name == 'args': return tuple(o.args)
            if name == 'arguments': return self.ctx.reg(HDict({k: (TRUE, v) for k, v in o.kwargs.items()}))
            raise Unsupported('exception attribute')
        if isinstance(o, (SStr, HList, HDict, HItems, HSet, STuple, SSet, SInt, SReal, SBool)) or (type(o) is tuple and has_sym(o)):
            return BuiltinMethod(o, name)
        if isinstance(o, (VBound, VClosure)):
            if name == '__name__': return o.name if isinstance(o, VClosure) else o.fn.__name__
            raise Unsupported('function attribute')
        if isinstance(o, SOpaque): raise Unsupported('attribute %s of opaque value' % name)
        if isinstance(o, HIter): raise Unsupported('attribute %s of an iterator' % name)
        if isinstance(o, types.ModuleType):
            k = (o.__name__, name)
            if k in self.ctx.overlay: return self.ctx.overlay[k]
        if isinstance(o, super): raise Unsupported('super')
        if isinstance(o, type):
            a = self.class_attr(o, name)
            if isinstance(a, classmethod): return VBound(a.__func__, o)
        try:
            return getattr(o, name)
        except AttributeError:
            self.raise_(AttributeError, name)

    def hasattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, HObj):
            if name in o.fields: return True
            a = self.class_attr(o.cls, name)
            if a is None or type(a).__name__ == 'member_descriptor': return False
            if isinstance(a, property): raise Unsupported('hasattr of property')
            return True
        if isinstance(o, SRec):
            o = self.resolve_null(o)
            if o is None: return hasattr(None, name)
            return all(hasattr(x, name) for x in o.rel.records[:1])
        if isinstance(o, (SStr,)): return hasattr('', name)
        if isinstance(o, SInt): return hasattr(0, name)
        if isinstance(o, HList): return hasattr([], name)
        if isinstance(o, (HDict,)): return hasattr({}, name)
        if isinstance(o, SView): raise Unsupported('hasattr')
        if isinstance(o, (STuple, tuple)): return hasattr((), name)
        if isinstance(o, (Sym, HIter, HSet)): raise Unsupported('hasattr')
        return hasattr(o, name)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, HObj):
            self.writable(o)
            a = self.class_attr(o.cls, name)
            if isinstance(a, property):
                if a.fset is None: self.raise_(AttributeError, name)
                return self.call(a.fset, (o, v))
            if a is None and not self.has_dict(o.cls): self.raise_(AttributeError, name)
            o.fields[name] = v
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    def has_dict(self, cls):
        return any('__slots__' not in c.__dict__ for c in cls.__mro__ if c is not object)

    def delattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, HObj):
            self.writable(o)
            a = self.class_attr(o.cls, name)
            if isinstance(a, property):
                if a.fdel is None: self.raise_(AttributeError, name)
                return self.call(a.fdel, (o,))
            if name not in o.fields: self.raise_(AttributeError, name)
            del o.fields[name]
            return
        raise Unsupported('del attribute')

    def narrow(self, v):
        """the value without the alternatives the path has excluded"""
        if not isinstance(v, SUnion): return v
        alts = [(g, x) for g, x in v.alts if self.ctx.check(T(g)) != z3.unsat]
        if len(alts) == 1: return alts[0][1]
        return SUnion(alts) if alts and len(alts) < len(v.alts) else v

    def writable(self, o):
        home = self.homes.get(id(o))
        if home is not None and home[0] is o and not any(v is o for g, k, v in home[1].log):
            # a value of a symbolic dict, changed in place: from now on it is the entry of its key
            d, kt = home[1], home[2]
            for h in self.homes.values():
                if h[0] is not o and h[1] is d and h[3] is d.base and self.ctx.check(h[2] == kt) != z3.unsat:
                    raise Unsupported('values of a symbolic dict that may be the same object')
            self.writable(d)
            d.log = d.log + [(TRUE, wrap_key(kt), o)]
        if id(o) not in self.ctx.heap or self.ctx.heap[id(o)] is not o:
            raise Unsupported('write to an element of a symbolic collection')
        self.ctx.wlog.append(o)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for n in body:
            self.exec(n, env)

    def exec(self, n, env):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(n).__name__)
        return m(n, env)

    def x_Expr(self, n, env):
        if isinstance(n.value, ast.Constant): return
        self.eval(n.value, env)

    def x_Pass(self, n, env): pass

    def x_Global(self, n, env): pass

    def x_Nonlocal(self, n, env): raise Unsupported('nonlocal')

    def x_Import(self, n, env):
        import importlib
        for al in n.names:
            m = importlib.import_module(al.name)
            if al.asname: env.vars[al.asname] = m
            else: env.vars[al.name.split('.')[0]] = sys.modules[al.name.split('.')[0]]

    def x_ImportFrom(self, n, env):
        import importlib
        if n.level: m = importlib.import_module('.' * n.level + (n.module or ''), env.globals.get('__package__'))
        else: m = importlib.import_module(n.module)
        for al in n.names:
            try: v = getattr(m, al.name)
            except AttributeError: v = importlib.import_module(m.__name__ + '.' + al.name)
            env.vars[al.asname or al.name] = v

    def x_Return(self, n, env):
        raise ReturnEx(self.eval(n.value, env) if n.value is not None else None)

    def x_Break(self, n, env): raise BreakEx()
    def x_Continue(self, n, env): raise ContinueEx()

    def x_FunctionDef(self, n, env):
        if n.decorator_list: raise Unsupported('decorated nested function')
        env.vars[n.name] = VClosure(n, env, n.name, *self.defaults(n, env))

    def x_Assert(self, n, env):
        if not self.test(self.eval(n.test, env)): self.raise_(AssertionError)

    def x_If(self, n, env):
        if self.test(self.eval(n.test, env)): self.exec_block(n.body, env)
        else: self.exec_block(n.orelse, env)

    def x_Raise(self, n, env):
        if n.exc is None:
            if getattr(env, 'handling', None) is not None: raise SymRaise(env.handling)
            raise Unsupported('bare raise')
        e = self.eval(n.exc, env)
        if isinstance(e, type): e = self.call_class(e, (), {})
        if isinstance(e, BaseException): e = VExc(type(e), e.args)
        if not isinstance(e, VExc): raise Unsupported('raise of %r' % (e,))
        raise SymRaise(e)

    def x_Try(self, n, env):
        try:
            try:
                self.exec_block(n.body, env)
            except SymRaise as s:
                for h in n.handlers:
                    if h.type is None: match = True
                    else:
                        t = self.eval(h.type, env)
                        match = issubclass(s.exc.cls, t)
                    if match:
                        if h.name: env.vars[h.name] = s.exc
                        old = getattr(env, 'handling', None)
                        env.handling = s.exc
                        try: self.exec_block(h.body, env)
                        finally:
                            env.handling = old
                            if h.name: env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, env)
        finally:
            if n.finalbody and not isinstance(sys.exc_info()[1], (Infeasible, Unsupported)):
                self.exec_block(n.finalbody, env)

    def x_With(self, n, env): raise Unsupported('with')

    def x_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Attribute): self.delattr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript): self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name): env.vars.pop(t.id, None)
            else: raise Unsupported('del')

    def x_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets: self.assign(t, v, env)

    def x_AnnAssign(self, n, env):
        if n.value is not None: self.assign(n.target, self.eval(n.value, env), env)

    def x_AugAssign(self, n, env):
        load = {ast.Name: lambda t: ast.Name(t.id, ast.Load())}
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id, env)
            v = self.eval(n.value, env)
            r = self.augop(cur, n.op, v)
            self.assign_name(n.target.id, r, env)
        elif isinstance(n.target, ast.Attribute):
            o = self.eval(n.target.value, env)
            cur = self.getattr(o, n.target.attr)
            r = self.augop(cur, n.op, self.eval(n.value, env))
            if r is not cur: self.setattr(o, n.target.attr, r)
        elif isinstance(n.target, ast.Subscript):
            o = self.eval(n.target.value, env)
            k = self.eval(n.target.slice, env)
            cur = self.getitem(o, k)
            r = self.augop(cur, n.op, self.eval(n.value, env))
            self.setitem(o, k, r)
        else: raise Unsupported('augmented assignment')

    def augop(self, cur, op, v):
        cur = self.resolve(cur)
        if isinstance(cur, HList) and isinstance(op, ast.Add):
            self.writable(cur)
            cur.seq = Seq(cur.seq.segs + self.as_seq(v).segs)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = self.resolve(v)
            if star: return self.unpack_rest(t.elts, star[0], v, env)
            items = self.as_seq(v).concrete()
            if items is None: raise Unsupported('unpacking of a sequence of unknown length')
            if len(items) != len(t.elts): self.raise_(ValueError, 'unpack')
            for e, x in zip(t.elts, items): self.assign(e, x, env)
        else: raise Unsupported('assignment target')

    def unpack_rest(self, elts, at, v, env):
        """a, *b, c = v"""
        from .methods import b_list
        v = b_list(self, (v,), {})
        c, after = v.seq.concrete(), len(elts) - at - 1
        if c is not None:
            if len(c) < at + after: self.raise_(ValueError, 'unpack')
            items = c[:at] + [self.new_list(c[at:len(c) - after])] + c[len(c) - after:]
        else:
            n = self.seq_len(v.seq)
            if not self.ctx.branch(n >= at + after): self.raise_(ValueError, 'unpack')
            end = self.simp(SInt(n - after)) if after else None
            items = [self.getitem(v, j) for j in range(at)] + [self.getslice(v, at, end, None)] + [self.getitem(v, self.simp(SInt(n - after + j))) for j in range(after)]
        for e, x in zip(elts, items): self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)

    # ------------------------------------------------------------ loops
    def x_For(self, n, env):
        it = self.resolve(self.eval(n.iter, env))
        q = self.as_seq(it)
        broke = False
        segs = list(q.segs)
        src = [(o, self.ctx.state(o)) for o, aligned in sources(it)]
        w = self.watch(it)
        # every pass that forks doubles the number of paths: in a longer loop the ways through a pass are joined before the next one
        many = len(segs) >= 8
        for k, s in enumerate(segs):
            for o, st in src:
                # the loop reads the list as it is now
                if not self.ctx.same_state(o, st, self.ctx.state(o)) and not same_keys(o, st, self.ctx.state(o), it): raise Unsupported('a list changed while it is iterated')
            try:
                if isinstance(s, GU):
                    if is_true(T(s.g)):
                        if many: self.merged_iter(n, env, s)
                        else: self.loop_body(n, env, s.v)
                    else:
                        self.guarded_iter(n, env, s)
                else:
                    self.fmap_loop(n, env, s, it)
            except BreakEx:
                broke = True
                break
        self.watched(it, w)
        if not broke:
            self.finished(it)
            self.exec_block(n.orelse, env)

    def loop_body(self, n, env, v):
        self.assign(n.target, v, env)
        try:
            self.exec_block(n.body, env)
        except ContinueEx:
            pass

    def x_While(self, n, env):
        if self.counted(n, env) or self.emptied(n, env): return
        k = 0
        while True:
            t = self.truth(self.eval(n.test, env))
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if is_true(t): t = True
                elif is_false(t): t = False
                else:
                    if self.ctx.entails(t): t = True
                    elif self.ctx.entails(Not(t)): t = False
                    else: raise Unsupported('while with symbolic condition')
            if not t:
                self.exec_block(n.orelse, env)
                return
            k += 1
            if k > 2000: raise Unsupported('while loop too long')
            try:
                self.exec_block(n.body, env)
            except ContinueEx: pass
            except BreakEx: return

    def counted(self, n, env):
        """while i < len(xs): ...; i += 1, as a loop over the indices: nothing but the last statement changes i, nothing changes the bound"""
        t, last = n.test, n.body[-1]
        if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1): return False
        i, bound = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left) if isinstance(t.ops[0], ast.Gt) else (None, None)
        if not isinstance(i, ast.Name) or len(n.body) < 2: return False
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i.id \
            and isinstance(last.value, ast.Constant) and last.value.value == 1
        inside = [x for b in n.body[:-1] for x in ast.walk(b)]
        if not step or any(isinstance(x, (ast.Continue, ast.Break, ast.Lambda, ast.FunctionDef, ast.Yield, ast.Global, ast.Nonlocal, ast.Delete)) for x in inside): return False
        changed = {x.id for x in inside if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        seq = bound.args[0] if isinstance(bound, ast.Call) and isinstance(bound.func, ast.Name) and bound.func.id == 'len' and len(bound.args) == 1 else None
        if seq is not None:
            parts = list(ast.walk(seq))
            if not all(isinstance(x, (ast.Name, ast.Attribute, ast.Load)) for x in parts) or 'len' in env.vars: return False
            names, attrs = {x.id for x in parts if isinstance(x, ast.Name)}, {x.attr for x in parts if isinstance(x, ast.Attribute)}
            if any(isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and x.attr in attrs for x in inside): return False
        elif isinstance(bound, ast.Name): names = {bound.id}
        else: return False
        if (names | {i.id}) & changed or i.id in names or i.id not in env.vars: return False
        start = self.simp(self.resolve(env.vars[i.id]))
        if type(start) is not int and not isinstance(start, SInt): return False
        read = [self.resolve(self.eval(x, env)) for x in ([x for x in parts if isinstance(x, (ast.Name, ast.Attribute))] if seq is not None else ())]
        end = self.simp(self.resolve(self.eval(bound, env)))
        if not isinstance(end, SInt) and not (type(end) is int and isinstance(start, SInt)): return False
        if seq is None and bound.id not in env.vars: return False
        at, old = len(self.ctx.wlog), env.vars[i.id]
        env.vars['%range'] = self.call(range, (start, end))
        loop = ast.copy_location(ast.For(ast.copy_location(ast.Name(i.id, ast.Store()), n), ast.copy_location(ast.Name('%range', ast.Load()), n), n.body[:-1], [], None), n)
        self.x_For(loop, env)
        if any(o is None or any(o is x for x in read) for o in self.ctx.wlog[at:]): raise Unsupported('the bound of a while loop may change')
        env.vars.pop('%range', None)
        a, b = lift(start).t, lift(end).t
        self.assign_name(i.id, self.simp(SInt(If(a < b, b, a))), env)
        return True

    def emptied(self, n, env):
        """while xs: x = xs.pop(0); ..., as a loop over the elements, when nobody else can see the list"""
        t, first = n.test, n.body[0]
        if n.orelse or not isinstance(t, ast.Name) or t.id not in env.vars or not isinstance(first, ast.Assign): return False
        inside = [x for b in n.body for x in ast.walk(b)]
        if any(isinstance(x, (ast.Break, ast.Return, ast.Lambda, ast.FunctionDef, ast.Yield, ast.Global, ast.Nonlocal, ast.Delete)) for x in inside): return False
        pops = [x for x in ast.walk(first.value) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop'
                and isinstance(x.func.value, ast.Name) and x.func.value.id == t.id and not x.keywords
                and (not x.args or len(x.args) == 1 and isinstance(x.args[0], ast.Constant) and x.args[0].value in (0, -1))]
        if len(pops) != 1 or len([x for x in inside if isinstance(x, ast.Name) and x.id == t.id]) != 1: return False
        if any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(first.value)): return False
        l = self.resolve(env.vars[t.id])
        if not isinstance(l, HList) or l.seq.concrete() is not None: return False
        others = [x for k, x in env.vars.items() if k != t.id] + [x for o in self.ctx.heap.values() if o is not l for x in [o]]
        if self.reaches(others, [l]): return False
        q = l.seq
        if not pops[0].args or pops[0].args[0].value == -1: q = self.getslice(l, None, None, -1).seq
        at = len(self.ctx.wlog)
        self.writable(l)
        l.seq = Seq([])
        env.vars['%items'] = STuple(q)
        item = ast.copy_location(ast.Name('%item', ast.Load()), n)

        class Pop(ast.NodeTransformer):
            def visit_Call(self, x): return item if x is pops[0] else self.generic_visit(x)
        value = Pop().visit(copy_without(first.value, pops[0]))
        body = [ast.copy_location(ast.Assign(first.targets, value, None), first)] + n.body[1:]
        loop = ast.copy_location(ast.For(ast.copy_location(ast.Name('%item', ast.Store()), n), ast.copy_location(ast.Name('%items', ast.Load()), n), body, [], None), n)
        try: self.x_For(loop, env)
        except SymRaise: raise Unsupported('an exception while a list is emptied')
        if any(o is None or o is l for o in self.ctx.wlog[at + 1:]): raise Unsupported('a list changed while it is emptied')
        env.vars.pop('%items', None)
        env.vars.pop('%item', None)
        return True

    def run_sub(self, thunk, env):
        """explore thunk (which may change env.vars and the heap); returns the list of paths, each with .extra vars"""
        ctx = self.ctx
        saved_vars = dict(env.vars)
        depth = self.depth
        box = {}

        def go():
            env.vars = dict(saved_vars)
            self.depth = depth
            before = set(ctx.heap)
            try:
                v = thunk()
                kind = 'next'
            except BreakEx: kind, v = 'break', None
            except ContinueEx: kind, v = 'next', None
            except ReturnEx as e: kind, v = 'return', e.v
            except SymRaise as e: kind, v = 'raise', e.exc
            return kind, (v, dict(env.vars), {k: o for k, o in ctx.heap.items() if k not in before})
        paths = ctx.explore(go)
        env.vars = saved_vars
        self.depth = depth
        return paths

    def apply_merged(self, env, alts):
        """alts: [(cond, vars, heapdiff, overlaydiff)], exhaustive; sets env and heap to the merged state"""
        ctx = self.ctx
        keys = []
        for c, vs, hd, ov in alts:
            for k in vs:
                if k not in keys: keys.append(k)
        new = {}
        for k in keys:
            vals = [(c, vs[k]) for c, vs, hd, ov in alts if k in vs]
            if len(vals) < len(alts):
                if all(v is vals[0][1] for c, v in vals): new[k] = Poison('assigned on some paths only')
                else: new[k] = Poison('assigned on some paths only')
                continue
            if any(isinstance(v, Poison) for c, v in vals): new[k] = Poison('merged')
            elif all(v is vals[0][1] for c, v in vals): new[k] = vals[0][1]
            else:
                new[k] = merge_vals(vals)
        objs, states, over = {}, {}, {}
        for c, vs, hd, ov in alts:
            for i, (o, st) in hd.items(): objs[i] = o
        for i, o in objs.items():
            cur = ctx.state(o)
            pairs = [(c, hd[i][1] if i in hd else cur) for c, vs, hd, ov in alts]
            states[i] = merge_state(o, pairs)
        ovk = set()
        for c, vs, hd, ov in alts: ovk |= set(ov)
        for k in ovk:
            if not all(k in ov for c, vs, hd, ov in alts): raise Unsupported('global assigned on some paths')
            over[k] = merge_vals([(c, ov[k]) for c, vs, hd, ov in alts])
        env.vars = new
        for i, o in objs.items(): ctx.set_state(o, states[i])
        ctx.overlay.update(over)

    def merged_iter(self, n, env, s):
        ctx = self.ctx
        paths = self.run_sub(lambda: self.loop_body(n, env, s.v), env)
        if len(paths) > 1 and all(p.kind == 'next' for p in paths):
            try: self.apply_merged(env, [(p.cond(), p.value[1], p.heap[0], p.heap[1]) for p in paths])
            except Unsupported: return self.loop_body(n, env, s.v)
            for p in paths:
                for f in p.facts: ctx.assume(Implies(p.cond(), f))
                ctx.loops.extend(p.extra)
            return
        self.loop_body(n, env, s.v)

    def guarded_iter(self, n, env, s):
        ctx = self.ctx

        def body():
            ctx.add(s.g)
            self.loop_body(n, env, s.v)
        paths = self.run_sub(body, env)
        self.settle(env, paths, s.g)

    def settle(self, env, paths, guard):
        """continue after a guarded block: abnormal exits fork, normal ends are merged with 'not executed'"""
        ctx = self.ctx
        ab = [p for p in paths if p.kind != 'next']
        if ab:
            k = ctx.choose([p.cond() for p in ab] + [And(*[Not(p.cond()) for p in ab])])
            if k < len(ab):
                p = ab[k]
                self.enter(env, p)
        for p in paths:
            for f in p.facts: ctx.assume(Implies(p.cond(), f))
        nm = [p for p in paths if p.kind == 'next']
        alts = [(p.cond(), p.value[1], p.heap[0], p.heap[1]) for p in nm]
        alts.append((Not(guard), dict(env.vars), {}, {}))
        self.apply_merged(env, alts)

    def merged(self, thunk):
        """run a side-effect free computation on all its paths and merge the results into one value (exceptions fork)"""
        ctx = self.ctx
        env = Env(set(), {})
        paths = self.run_sub(thunk, env)
        ab = [p for p in paths if p.kind != 'next']
        nm = [p for p in paths if p.kind == 'next']
        if ab:
            k = ctx.choose([p.cond() for p in ab] + ([And(*[Not(p.cond()) for p in ab])] if nm else []))
            if k < len(ab): self.enter(env, ab[k])
        for p in nm:
            for i, (o, st) in p.heap[0].items():
                if not (isinstance(o, HObj) and all(k.startswith('_lazy__') or (k in o.fields and o.fields[k] is v) for k, v in st.items())):
                    raise Unsupported('side effect in a pure computation')
            if p.heap[1]: raise Unsupported('side effect in a pure computation')
            for f in p.facts: ctx.assume(Implies(p.cond(), f))
            ctx.loops.extend(p.extra)
        if len(nm) == 1: return nm[0].value[0]
        from .loops import reg_all
        # what the computation made is known by its result only: when the results are made alike, they can be merged part by part
        if len({sharing(p.value[0], p.value[2]) for p in nm}) == 1:
            for p in nm:
                for k in p.value[2]: ctx.heap.pop(k, None)
            core.MERGED = {}
            try: r = merge_vals([(p.cond(), p.value[0]) for p in nm])
            finally: core.MERGED = None
            reg_all(ctx, r)
            return r
        r = merge_vals([(p.cond(), p.value[0]) for p in nm])
        reg_all(ctx, r)
        return r

    def enter(self, env, p):
        """commit to path p of a sub-exploration (its condition has been added)"""
        ctx = self.ctx
        for f in p.facts: ctx.assume(f)
        env.vars = dict(p.value[1])
        for i, (o, st) in p.heap[0].items(): ctx.set_state(o, st)
        ctx.overlay.update(p.heap[1])
        ctx.loops.extend(p.extra)
        if p.kind == 'break': raise BreakEx()
        if p.kind == 'return': raise ReturnEx(p.value[0])
        if p.kind == 'raise': raise SymRaise(p.value[0])

    def fmap_loop(self, n, env, s, it):
        from .loops import fmap_loop
        fmap_loop(self, n, env, s, it)

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env): return n.value

    def e_Name(self, n, env): return self.lookup(n.id, env)

    def e_Attribute(self, n, env): return self.getattr(self.eval(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return self.seq_display(n.elts, env, tuple)

    def e_List(self, n, env):
        return self.seq_display(n.elts, env, list)

    def seq_display(self, elts, env, kind):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred): segs.extend(self.as_seq(self.eval(e.value, env)).segs)
            else: segs.append(GU(TRUE, self.eval(e, env)))
        q = Seq(segs)
        if kind is tuple:
            c = q.concrete()
            return tuple(c) if c is not None else STuple(q)
        return self.ctx.reg(HList(q))

    def e_Set(self, n, env):
        vs = [self.eval(e, env) for e in n.elts]
        if not any(has_sym(v) for v in vs): return frozenset_like(vs)
        return self.ctx.reg(HSet(Seq([GU(TRUE, v) for v in vs])))

    def e_Dict(self, n, env):
        d = self.ctx.reg(HDict())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                self.setitem(d, kk, self.eval(v, env))
        return d

    def e_Lambda(self, n, env): return VClosure(n, env, '<lambda>', *self.defaults(n, env))

    def defaults(self, n, env):
        kw = {a.arg: self.eval(x, env) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults) if x is not None}
        return [self.eval(x, env) for x in n.args.defaults], kw


    def e_IfExp(self, n, env):
        return self.eval(n.body if self.test(self.eval(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.eval(e, env)
            if k == len(n.values) - 1: return v
            t = self.test(v)
            if isand and not t: return self.shortv(v, False)
            if not isand and t: return self.shortv(v, True)
        return v

    def shortv(self, v, b):
        return b if isinstance(v, (SBool, bool)) else v

    def e_UnaryOp(self, n, env):
        v = self.resolve(self.eval(n.operand, env))
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.boolean(Not(t))
        if not has_sym(v):
            try:
                if isinstance(n.op, ast.USub): return -v
                if isinstance(n.op, ast.UAdd): return +v
                if isinstance(n.op, ast.Invert): return ~v
            except Exception as e:
                raise SymRaise(VExc(type(e)))
        if isinstance(n.op, ast.USub) and isinstance(v, (SInt, SReal)): return type(v)(-v.t)
        if isinstance(n.op, ast.UAdd) and isinstance(v, (SInt, SReal)): return v
        if isinstance(v, SBool) and isinstance(n.op, (ast.USub, ast.UAdd)): return SInt(If(v.t, z3.IntVal(-1 if isinstance(n.op, ast.USub) else 1), z3.IntVal(0)))
        raise Unsupported('unary operator')

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if res is None: res = v
            else: res = v
            if len(n.ops) > 1:
                # chained: conjunction, evaluated left to right
                if not self.test(v): return False
                res = True
            left = right
        return res

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            raise Unsupported('super()')
        f = self.eval(n.func, env)
        args = []
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                q = self.as_seq(self.eval(a.value, env))
                c = q.concrete()
                if c is not None: args.extend(c)
                else: args.append(StarSeq(q))
            else: args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value, env))
                if isinstance(d, dict): kwargs.update(d)
                elif isinstance(d, HDict) and d.is_fin() and all(is_true(T(p)) for p, v in d.ent.values()):
                    kwargs.update({kk: v for kk, (p, v) in d.ent.items()})
                else: raise Unsupported('** of symbolic dict')
            else: kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, tuple(args), kwargs)

    def e_Starred(self, n, env): raise Unsupported('starred')

    def e_JoinedStr(self, n, env):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant): parts.append(p.value)
            else:
                v = self.resolve(self.eval(p.value, env))
                if p.format_spec is not None or p.conversion not in (-1, 115): raise Unsupported('f-string format')
                parts.append(b_str(self, (v,), {}))
        acc = ''
        for p in parts: acc = self.binop(ast.Add(), acc, p)
        return acc

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            ev = lambda x: None if x is None else self.eval(x, env)
            return self.getslice(o, ev(n.slice.lower), ev(n.slice.upper), ev(n.slice.step))
        return self.getitem(o, self.eval(n.slice, env))

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Yield(self, n, env):
        e = env
        while e.yields is None and e.parent is not None: e = e.parent
        v = self.eval(n.value, env) if n.value is not None else None
        self.method(e.yields, 'append', (v,), {})
        return None

    def e_YieldFrom(self, n, env):
        v = self.eval(n.value, env)
        q = self.as_seq(v)
        self.writable(env.yields)
        env.yields.seq = Seq(env.yields.seq.segs + q.segs)
        return None

    def e_ListComp(self, n, env): return self.ctx.reg(HList(self.comp(n, env, lambda e: self.eval(n.elt, e))))

    def e_GeneratorExp(self, n, env):
        first = self.iterable(self.eval(n.generators[0].iter, env))
        return self.ctx.reg(HIter(types.GeneratorType, lambda whole: self.comp(n, env, lambda e: self.eval(n.elt, e), first, whole is True, {'any': True, 'bag': 'bag'}.get(whole, False)), (), lambda: ([first], self.loaded(n, env)),
                                 [first] if isinstance(first, HIter) and len(n.generators) == 1 else ()))

    def iterable(self, v):
        """what iter(v) is given: raises where iter would"""
        v = self.resolve(v)
        if v is None or isinstance(v, (int, float, SInt, SBool, SReal, SRec, type, types.FunctionType, VClosure, VBound)): self.as_seq(v)
        return v

    def e_SetComp(self, n, env):
        q = self.comp(n, env, lambda e: self.eval(n.elt, e))
        c = q.concrete()
        if c is not None and not any(has_sym(v) for v in c): return frozenset_like(c)
        return self.ctx.reg(HSet(q))

    def e_DictComp(self, n, env):
        source = self.resolve(self.eval(n.generators[0].iter, env))
        given = source.of if isinstance(source, SView) else source
        order = given.ent.order if isinstance(given, HDict) and given.is_fin() and len(n.generators) == 1 else None
        q = self.comp(n, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e)), source, anyhow='bag' if order is not None else False)
        d = self.ctx.reg(HDict())
        self.dict_fill(d, q)
        if order is not None:
            # different keys: only the order of the result depends on the order in which they come
            if len(d.ent) < len(q.segs): raise Unsupported('order of a dict')
            d.ent.order = order
        return d

    def dict_fill(self, d, q):
        for s in q.segs:
            if isinstance(s, FMap):
                raise Unsupported('dict comprehension over a symbolic sequence')
            k, v = self.pair(s.v)
            k = self.simp(self.resolve(k))
            if has_sym(k): raise Unsupported('symbolic key in dict comprehension')
            self.entering(d.ent, k, s.g)
            if k in d.ent:
                p0, v0 = d.ent[k]
                d.ent[k] = (Or(s.g, p0), ite(s.g, v, v0))
            else:
                d.ent[k] = (s.g, v)

    def pair(self, v):
        v = self.resolve(v)
        c = self.as_seq(v).concrete()
        if c is None or len(c) != 2: raise Unsupported('pair expected')
        return c

    def comp(self, n, env, elt, source=None, whole=True, anyhow=False):
        gens = n.generators
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name): names.add(x.id)
        cenv = Env(names, env.globals, env.closure, env, env.module)
        cenv.yields = None
        out = []
        if source is None: source = self.resolve(self.eval(gens[0].iter, env))
        self.comp_gen(gens, 0, self.as_seq(source, anyhow=anyhow), cenv, elt, out)
        if whole: self.finished(source)
        return Seq(out)

    def comp_gen(self, gens, gi, q, env, elt, out):
        g = gens[gi]
        last = gi == len(gens) - 1

        def one(v):
            """value part for one element: ('skip', None) or ('val', v)"""
            self.assign(g.target, v, env)
            for c in g.ifs:
                t = self.truth(self.eval(c, env))
                if isinstance(t, bool):
                    if not t: return False
                elif last:
                    # elements that fail the filter contribute nothing: only the others are followed
                    filtered[0] = True
                    self.ctx.add(t)
                elif not self.ctx.branch(t): return False
            return True
        filtered = [False]
        ctx = self.ctx
        for s in q.segs:
            if isinstance(s, GU) and is_true(T(s.g)):
                # one element: no need to fork the whole path on its filter
                if last:
                    self.comp_unit(one, elt, env, s, out, filtered)
                else:
                    if one(s.v):
                        self.comp_gen(gens, gi + 1, self.as_seq(self.eval(gens[gi + 1].iter, env)), env, elt, out)
            elif isinstance(s, GU):
                if not last: raise Unsupported('nested comprehension over guarded elements')
                self.comp_unit(one, elt, env, s, out, filtered)
            else:
                if not last:
                    self.comp_flat(gens, gi, one, elt, env, s, out)
                    continue
                out.append(self.comp_fmap(one, elt, env, s, filtered))

    def comp_unit(self, one, elt, env, s, out, filtered):
        ctx = self.ctx
        if is_true(T(s.g)):
            # try without forking
            pass

        def go():
            ctx.add(s.g)
            if not one(s.v): return None
            return (elt(env),)
        paths = self.run_sub(go, env)
        ab = [p for p in paths if p.kind != 'next']
        if ab:
            k = ctx.choose([p.cond() for p in ab] + [And(*[Not(p.cond()) for p in ab])])
            if k < len(ab): self.enter(env, ab[k])
        for p in paths:
            if p.heap[0] or p.heap[1]: raise Unsupported('side effect in comprehension')
            for f in p.facts: ctx.assume(Implies(p.cond(), f))
        kept = [p for p in paths if p.kind == 'next' and p.value[0] is not None]
        if not kept: return
        g = z3.simplify(Or(*[p.cond() for p in kept])) if filtered[0] or len(paths) > 1 or not is_true(T(s.g)) else TRUE
        if len(kept) == len(paths) and is_true(T(s.g)) and not filtered[0]: g = TRUE
        out.append(GU(g, merge_vals([(p.cond(), p.value[0][0]) for p in kept])))

    def comp_flat(self, gens, gi, one, elt, env, s, out):
        raise Unsupported('nested comprehension over a symbolic sequence')

    def comp_fmap(self, one, elt, env, s, filtered):
        ctx = self.ctx
        i = z3.Int('i!%d' % next(_counter))
        ctx.ivars.append(i)
        gi = s.guard_at(i)
        rng = And(i >= 0, i < s.n, gi)
        try:
            def go():
                ctx.add(rng)
                for f in s.facts_at(i): ctx.assume(f)
                if not one(s.at(i)): return None
                return (elt(env),)
            paths = self.run_sub(go, env)
        finally:
            ctx.ivars.pop()
        for p in paths:
            for k in p.value[2]: ctx.heap.pop(k, None)
        drop_range(paths, rng)
        ab = [p for p in paths if p.kind != 'next']
        self.fmap_abnormal(env, ab, i, s, rng)
        for p in paths:
            if p.heap[0] or p.heap[1]: raise Unsupported('side effect in comprehension')
        kept = [p for p in paths if p.kind == 'next' and p.value[0] is not None]
        facts = list(s.facts_at(i))
        for p in paths:
            if p.facts: facts.extend(Implies(And(gi, p.cond()), f) for f in p.facts)
        if not kept: return GU(FALSE, None)
        skipped = [p for p in paths if p.kind == 'next' and p.value[0] is None]
        if skipped or filtered[0]:
            g = And(gi, Or(*[p.cond() for p in kept]) if filtered[0] or len(kept) <= len(skipped) else And(*[Not(p.cond()) for p in skipped]))
        else: g = gi
        elem = merge_vals([(p.cond(), p.value[0][0]) for p in kept])
        return FMap(i, s.n, z3.simplify(T(g)), elem, facts, s.origin)

    def fmap_abnormal(self, env, ab, i, s, rng):
        """an iteration may end abnormally (exception, break, return): fork on the first one that does"""
        if not ab: return
        ctx = self.ctx
        cond = And(rng, Or(*[p.cond() for p in ab]))
        ex = ctx.exists(i, s.n, cond, s.facts_at(i))
        k = ctx.choose([ex, Not(ex)])
        if k == 1: return
        e = ctx.fresh(z3.IntSort(), 'first')
        sub = lambda t: z3.substitute(t, (i, e))
        ctx.assume(sub(cond))
        for f in s.facts_at(e): ctx.assume(f)
        ctx.witness(e, i, s.n, cond)
        k = ctx.choose([sub(p.cond()) for p in ab])
        p = ab[k]
        for f in p.facts: ctx.assume(sub(f))
        if p.heap[0]: raise Unsupported('side effect before abnormal exit')
        env.vars = {kk: subst(v, [(i, e)]) for kk, v in p.value[1].items()} if p.kind != 'raise' else env.vars
        if p.kind == 'raise': raise SymRaise(subst(p.value[0], [(i, e)]))
        if p.kind == 'return': raise ReturnEx(subst(p.value[0], [(i, e)]))
        raise BreakEx()

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, SReal) or isinstance(b, SReal):
            a, b = self.float_cases(a), self.float_cases(b)
        if not has_sym(a) and not has_sym(b):
            f = NATIVE_OPS[type(op)]
            if isinstance(op, ast.Add) and isinstance(a, list):
                return self.new_list(f(a, b))
            try:
                return f(a, b)
            except Exception as e:
                raise SymRaise(VExc(type(e), e.args))
        if isinstance(op, ast.Add):
            if isinstance(a, (SView, HIter)) or isinstance(b, (SView, HIter)): self.raise_(TypeError, 'operand')
            if isinstance(a, (HList, list)) and isinstance(b, (HList, list)):
                return self.ctx.reg(HList(Seq(self.as_seq(a).segs + self.as_seq(b).segs)))
            if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
                q = Seq(to_seq(a).segs + to_seq(b).segs)
                c = q.concrete()
                return tuple(c) if c is not None else STuple(q)
            if isinstance(a, (HList, list, tuple, STuple)) or isinstance(b, (HList, list, tuple, STuple)):
                self.raise_(TypeError, '+')
        if isinstance(op, ast.Mult):
            if isinstance(b, (HList, list, tuple)) : a, b = b, a
            if isinstance(a, (HList, list, tuple)) and isinstance(b, (int, SInt)):
                return self.repeat(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            if self.ctx.ivars: raise Unsupported('string formatting in a loop over a symbolic collection')
            if not isinstance(b, (tuple, STuple)): raise Unsupported('string formatting with a symbolic operand')
            self.used_trusted.add('text % values (a function of both; equal in both programs)')
            return SApp(z3.Const('format!%d' % next(_counter), z3.StringSort()), '%', (a, b))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and isinstance(a, (SSet, frozenset, set)) and isinstance(b, (SSet, frozenset, set)):
            f = {ast.BitAnd: INTER, ast.BitOr: UNION, ast.Sub: DIFF}[type(op)]
            return SSet(f(self.set_term(a), self.set_term(b)))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            f = And if isinstance(op, ast.BitAnd) else Or
            return self.boolean(f(lift(a).t, lift(b).t))
        la, lb = lift(a), lift(b)
        if isinstance(la, SBool): la = SInt(If(la.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(lb, SBool): lb = SInt(If(lb.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(la, SStr) and isinstance(lb, SStr) and isinstance(op, ast.Add):
            return SStr(z3.Concat(la.t, lb.t))
        if isinstance(la, SInt) and isinstance(lb, SInt):
            x, y = la.t, lb.t
            if isinstance(op, ast.Add): return SInt(x + y)
            if isinstance(op, ast.Sub): return SInt(x - y)
            if isinstance(op, ast.Mult): return SInt(x * y)
            if isinstance(op, (ast.Mod, ast.FloorDiv)):
                yy = z3.simplify(y)
                if not z3.is_int_value(yy): raise Unsupported('division by a symbolic integer')
                c = yy.as_long()
                if c == 0: self.raise_(ZeroDivisionError)
                if c < 0: raise Unsupported('division by a negative constant')
                return SInt(x % c) if isinstance(op, ast.Mod) else SInt(x / c)
        if isinstance(la, (SInt, SReal)) and isinstance(lb, (SInt, SReal)):
            raise Unsupported('floating point arithmetic on symbolic operands')
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb and isinstance(op, (ast.Add, ast.Sub)) and (ka != kb or ka == 'none' or isinstance(op, ast.Sub)) : self.raise_(TypeError, 'operand')
        raise Unsupported('operator %s on %s and %s' % (type(op).__name__, type(a).__name__, type(b).__name__))

    def float_cases(self, v):
        """arithmetic on a float that is one of finitely many ground values: one path per value, computed by CPython"""
        if not isinstance(v, SReal): return v
        leaves, todo = {}, [z3.simplify(v.t)]
        while todo:
            t = todo.pop()
            if z3.is_app_of(t, z3.Z3_OP_ITE): todo.extend(t.children()[1:])
            elif z3.is_rational_value(t): leaves[t.as_fraction()] = t
            elif z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_int_value(t.arg(0)): leaves[Fraction(t.arg(0).as_long())] = t
            else: raise Unsupported('floating point arithmetic on symbolic operands')
        items = sorted(leaves.items())
        if any(Fraction(float(f)) != f for f, t in items): raise Unsupported('not a float')
        k = self.ctx.choose([v.t == t for f, t in items])
        return float(items[k][0])

    def repeat(self, a, b):
        q = self.as_seq(a)
        if isinstance(b, int):
            r = Seq(q.segs * b)
        else:
            c = q.concrete()
            if c is None or len(c) != 1: raise Unsupported('repetition')
            i = z3.Int('i!%d' % next(_counter))
            r = Seq([FMap(i, If(b.t > 0, b.t, z3.IntVal(0)), TRUE, c[0])])
        if isinstance(a, (HList, list)): return self.ctx.reg(HList(r))
        c = r.concrete()
        return tuple(c) if c is not None else STuple(r)

    def set_term(self, v):
        if isinstance(v, SSet): return v.t
        if isinstance(v, (frozenset, set)) and not v: return EMPTY
        raise Unsupported('set operand')

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot): r = (not r) if isinstance(r, bool) else self.boolean(Not(r.t))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn): r = (not r) if isinstance(r, bool) else self.boolean(Not(r.t))
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equals(a, b, isinstance(op, ast.NotEq))
            return r
        a, b = self.resolve(a), self.resolve(b)
        if not has_sym(a) and not has_sym(b):
            try:
                return NATIVE_CMP[type(op)](a, b)
            except Exception as e:
                raise SymRaise(VExc(type(e), e.args))
        la, lb = lift(a), lift(b)
        if isinstance(la, SBool): la = SInt(If(la.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(lb, SBool): lb = SInt(If(lb.t, z3.IntVal(1), z3.IntVal(0)))
        num = (SInt, SReal)
        if isinstance(la, num) and isinstance(lb, num):
            x, y = la.t, lb.t
            if isinstance(op, ast.Lt): return self.boolean(x < y)
            if isinstance(op, ast.LtE): return self.boolean(x <= y)
            if isinstance(op, ast.Gt): return self.boolean(x > y)
            if isinstance(op, ast.GtE): return self.boolean(x >= y)
        if isinstance(a, HList) and isinstance(b, HList):
            ta, tb = self.tok(a), self.tok(b)
            self.order_facts(ta, tb)
            if isinstance(op, ast.Lt): return self.boolean(LISTLT(ta, tb))
            if isinstance(op, ast.Gt): return self.boolean(LISTLT(tb, ta))
            if isinstance(op, ast.LtE): return self.boolean(Not(LISTLT(tb, ta)))
            if isinstance(op, ast.GtE): return self.boolean(Not(LISTLT(ta, tb)))
        if type(a) is tuple and type(b) is tuple and isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            return self.lex(op, a, b)
        if (isinstance(a, SSet) or isinstance(b, SSet)) and isinstance(a, (SSet, frozenset, set)) and isinstance(b, (SSet, frozenset, set)):
            x, y = self.set_term(a), self.set_term(b)
            if isinstance(op, (ast.Gt, ast.GtE)): x, y = y, x
            return self.boolean(And(SUBSET(x, y), x != y) if isinstance(op, (ast.Lt, ast.Gt)) else SUBSET(x, y))
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb and (ka != kb or ka == 'none'): self.raise_(TypeError, 'comparison')
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def lex(self, op, a, b):
        strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        for x, y in zip(a, b):
            if self.test(self.equals(x, y, False)): continue
            return self.compare(strict, x, y)
        f = NATIVE_CMP[type(op)]
        return f(len(a), len(b))

    def tok(self, l):
        if l.seq.tok is None or l.seq.tok.sort() != ListTok: raise Unsupported('ordering of a list built by the code')
        return l.seq.tok

    def order_facts(self, a, b):
        self.ctx.assume(Or(a == b, LISTLT(a, b), LISTLT(b, a)))
        self.used_trusted.add('list < is a strict total order')

    def identical(self, a, b):
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if b is None or a is None:
                u = a if isinstance(a, SUnion) else b
                conds = []
                for g, v in u.alts:
                    x = self.identical(v, None)
                    conds.append(And(g, x if isinstance(x, bool) else x.t))
                return self.boolean(Or(*conds))
            a, b = self.resolve(a), self.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SRec):
                if y is None: return self.boolean(x.t == -1) if x.nullable else False
                if is_record(y) or isinstance(y, SRec): return self.boolean(eq(x, y))
                return False
        if a is None or b is None: return a is b
        if isinstance(a, SBool) and isinstance(b, bool): return self.boolean(a.t == b)
        if isinstance(b, SBool) and isinstance(a, bool): return self.boolean(b.t == a)
        if isinstance(a, HEAP) and isinstance(b, HEAP):
            if a is b: return True
            if self.ctx.heap.get(id(a)) is a and self.ctx.heap.get(id(b)) is b: return False
            if isinstance(a, HObj) and isinstance(b, HObj) and a.ref is not None and a.ref == b.ref:
                # abstract objects: the same object has the same token (two objects may have it, too)
                x = self.ctx.fresh(z3.BoolSort(), 'same')
                self.ctx.assume(Implies(x, a.fields['_lazy__token'].t == b.fields['_lazy__token'].t))
                return SBool(x)
            raise Unsupported('identity of elements of symbolic collections')
        if isinstance(a, (Sym,) + HEAP) or isinstance(b, (Sym,) + HEAP):
            if isinstance(a, SOpaque) and isinstance(b, SOpaque): return self.boolean(eq(a, b))
            if isinstance(a, Sym) and isinstance(b, Sym): raise Unsupported('identity of symbolic values')
            return False
        return a is b

    def equals(self, a, b, neg):
        a, b = self.resolve(a), self.resolve(b)
        if not has_sym(a) and not has_sym(b):
            try:
                return (a != b) if neg else (a == b)
            except Exception as e:
                raise SymRaise(VExc(type(e), e.args))
        if isinstance(a, HObj) or isinstance(b, HObj):
            x, y = (a, b)
            if isinstance(a, HObj):
                m = self.class_attr(a.cls, '__ne__' if neg else '__eq__')
                own = m is not None and m is not getattr(object, '__ne__' if neg else '__eq__')
                if own:
                    return self.call(m, (a, b))
                if neg:
                    r = self.equals(a, b, False)
                    return (not r) if isinstance(r, bool) else self.boolean(Not(r.t))
                return self.identical(a, b)
            m = self.class_attr(b.cls, '__ne__' if neg else '__eq__')
            if m is not None and isinstance(m, types.FunctionType): return self.call(m, (b, a))
            return neg
        if isinstance(a, (HList, STuple)) and isinstance(b, (HList, STuple)) or (type(a) is tuple and type(b) is tuple):
            if contains_obj(a) or contains_obj(b):
                r = self.eq_elems(a, b)
                return self.boolean(Not(r) if neg else r)
        try:
            t = eq(a, b)
        except NotComparable as e:
            raise Unsupported('equality: %s' % e)
        return self.boolean(Not(t) if neg else t)

    def eq_elems(self, a, b):
        """element-wise == through the elements' own __eq__"""
        def objeq(x, y):
            if not (isinstance(x, HObj) or isinstance(y, HObj)): return None
            r = self.equals_nofork(x, y)
            return r
        try:
            return eq(a, b, objeq)
        except NotComparable as e:
            raise Unsupported('equality: %s' % e)

    def equals_nofork(self, x, y):
        paths = self.run_sub(lambda: self.equals(x, y, False), Env(set(), {}))
        out = []
        for p in paths:
            if p.kind != 'next': raise Unsupported('equality of elements may raise')
            v = p.value[0]
            out.append(And(p.cond(), v if isinstance(v, bool) else v.t, *p.facts))
        return Or(*out)

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, HDict):
            x = self.simp(self.resolve(x))
            return self.boolean(self.dict_has(c, x))
        if isinstance(c, (dict, set, frozenset, tuple, list)) and not has_sym(c):
            x = self.simp(self.resolve(x))
            if not has_sym(x):
                try: return x in c
                except Exception as e: raise SymRaise(VExc(type(e), e.args))
            if isinstance(x, HEAP):
                if isinstance(x, HObj) and isinstance(c, (dict, set, frozenset)):
                    self.call(builtins.hash, (x,))
                return False if not c else self.boolean(Or(*[T2(self.equals(x, k, False)) for k in c]))
            try:
                return self.boolean(Or(*[eq(x, k) for k in c]))
            except NotComparable as e:
                raise Unsupported(str(e))
        if isinstance(c, (SStr, str)):
            x = self.resolve(x)
            lx = lift(x)
            if not isinstance(lx, SStr): self.raise_(TypeError, 'in <string>')
            if not has_sym(c) and not has_sym(x): return x in c
            return self.boolean(z3.Contains(lift(c).t, lx.t))
        if isinstance(c, (HList, STuple, HSet, HIter)) or type(c) is tuple:
            out = []
            for s in self.as_seq(c, anyhow=True).segs:
                if isinstance(s, GU): out.append(And(s.g, T2(self.equals(x, s.v, False))))
                else:
                    v = z3.Int('w!%d' % next(_counter))
                    y = s.at(v)
                    try:
                        if contains_obj(x) or contains_obj(y):
                            self.ctx.ivars.append(v)
                            try: e = self.equals_nofork(x, y)
                            finally: self.ctx.ivars.pop()
                        else: e = eq(x, y)
                    except NotComparable as ex: raise Unsupported(str(ex))
                    out.append(self.ctx.exists(v, s.n, And(s.guard_at(v), e), s.facts_at(v)))
            return self.boolean(Or(*out))
        if isinstance(c, SSet):
            x = self.resolve(x)
            if isinstance(x, SOpaque) and x.t.sort() == ElemSort: return self.boolean(z3.IsMember(x.t, c.t))
            raise Unsupported('membership in a symbolic set')
        if isinstance(c, HObj):
            m = self.class_attr(c.cls, '__contains__')
            if m is not None: return self.call(m, (c, x))
        if isinstance(c, Sym): raise Unsupported('membership')
        if isinstance(c, HObj): self.raise_(TypeError, 'not a container')
        if not has_sym(x):
            try: return x in c
            except Exception as e: raise SymRaise(VExc(type(e), e.args))
        raise Unsupported('membership in %r' % (type(c),))

    # ------------------------------------------------------------ containers
    def dict_has(self, d, x):
        x = self.simp(x)
        if isinstance(x, HObj):
            # objects as keys: only against concrete string/other keys of symbolic dicts -> hash then never equal
            if d.base is not None and d.keysort == z3.StringSort():
                self.call(builtins.hash, (x,))
                return FALSE
            if not d.ent and not d.log and d.base is None: return FALSE
            if all(not isinstance(k, HObj) for k in d.ent) and not d.log and d.base is None:
                self.call(builtins.hash, (x,))
                return FALSE
            raise Unsupported('object as dict key')
        if isinstance(x, (HList, HDict, HSet)): self.raise_(TypeError, 'unhashable type')
        out = []
        if not has_sym(x) and self._hashable(x) and x in d.ent: out.append(d.ent[x][0])
        else:
            if not self._hashable(x) and not has_sym(x): self.raise_(TypeError, 'unhashable')
            if has_sym(x):
                for k, (p, v) in d.ent.items():
                    try: out.append(And(p, eq(x, k)))
                    except NotComparable: pass
        for g, k, v in d.log:
            try: out.append(And(g, eq(x, k)))
            except NotComparable: raise Unsupported('dict key')
        if d.base is not None:
            kt = lift(x)
            if hasattr(kt, 't') and kt.t.sort() == d.keysort: out.append(d.base.has(kt.t))
        return Or(*out)

    def dict_get(self, d, x):
        """value under the assumption that the key is present"""
        x = self.simp(x)
        val = NOVAL
        kt = lift(x)
        if d.base is not None and hasattr(kt, 't') and kt.t.sort() == d.keysort:
            val = self.base_value(d, kt.t)
        def over(c, v, val):
            """v when c, else what was there; objects keep their identity"""
            if val is NOVAL or is_true(T(c)): return v
            if isinstance(v, HEAP) or isinstance(val, HEAP): return v if self.ctx.branch(c) else val
            return ite(c, v, val)
        if not has_sym(x):
            if x in d.ent:
                p, v = d.ent[x]
                val = over(p, v, val)
        else:
            for k, (p, v) in d.ent.items():
                c = And(p, eq(x, k))
                if is_false(z3.simplify(c)): continue
                val = over(c, v, val)
        for g, k, v in d.log:
            c = z3.simplify(And(g, eq(x, k)))
            if is_false(c): continue
            val = over(c, v, val)
        if val is NOVAL: raise Unsupported('dict value')
        return val

    def base_value(self, d, kt):
        for o, d2, k2, b2, st in self.homes.values():
            if d2 is d and b2 is d.base and k2.eq(kt) and self.ctx.same_state(o, st, self.ctx.state(o)): return o
        val = d.base.get(kt)
        if isinstance(val, (HList, HDict, HSet)) and id(d) in self.ctx.heap:
            self.ctx.reg(val)
            self.homes[id(val)] = (val, d, kt, d.base, self.ctx.state(val))
        return val

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(k, STable) and isinstance(o, dict) and all(type(o.get(x)) is int for x in k.table):
            vals = [o[x] for x in k.table]
            if vals == list(range(len(vals))): return SInt(k.t)
            return merge_vals([(k.t == j, x) for j, x in enumerate(vals)])
        k = self.simp(self.resolve(k))
        if isinstance(o, HDict):
            has = self.dict_has(o, k)
            if not self.ctx.branch(has): self.raise_(KeyError)
            return self.dict_get(o, k)
        if isinstance(o, dict):
            if not has_sym(k):
                try: return o[k]
                except Exception as e: raise SymRaise(VExc(type(e), e.args))
            return self.table_lookup(o, k)
        if isinstance(o, SView): self.raise_(TypeError, 'not subscriptable')
        if isinstance(o, (HList, STuple, tuple, list)):
            return self.index(o, k)
        if isinstance(o, (SStr, str)):
            if not has_sym(o) and not has_sym(k):
                try: return o[k]
                except Exception as e: raise SymRaise(VExc(type(e), e.args))
            t = lift(o).t
            if isinstance(k, SBool): k = SInt(If(k.t, z3.IntVal(1), z3.IntVal(0)))
            kt = lift(k)
            if not isinstance(kt, SInt): self.raise_(TypeError)
            n = z3.Length(t)
            i = kt.t
            idx = i if isinstance(k, int) and k >= 0 else (n + i if isinstance(k, int) else If(i < 0, n + i, i))
            if not self.ctx.branch(And(idx >= 0, idx < n)): self.raise_(IndexError)
            return SStr(z3.SubString(t, idx, 1))
        if isinstance(o, HObj):
            m = self.class_attr(o.cls, '__getitem__')
            if m is not None: return self.call(m, (o, k))
            self.raise_(TypeError)
        if isinstance(o, (HIter, HSet)): self.raise_(TypeError, 'not subscriptable')
        if has_sym(o): raise Unsupported('subscript of %r' % (o,))
        if has_sym(k): raise Unsupported('subscript with symbolic key')
        try: return o[k]
        except Exception as e: raise SymRaise(VExc(type(e), e.args))

    def table_lookup(self, d, k):
        """concrete dict, symbolic key"""
        if isinstance(k, HObj): raise Unsupported('object as key of a table')
        if isinstance(k, SRec) and not k.nullable and len(d) and all(not isinstance(v, (int, str)) for v in d.values()):
            k = self.concretize(k)
            try: return d[k]
            except KeyError: self.raise_(KeyError)
        if type(k) is tuple:
            vals = list(d.values())
            if any(isinstance(x, SRec) for x in k) and not all(isinstance(v, (int, str)) for v in vals):
                k = tuple(self.concretize(x) if isinstance(x, SRec) else x for x in k)
                if not has_sym(k):
                    try: return d[k]
                    except KeyError: self.raise_(KeyError)
            t, h = self.tree(d, k)
        else:
            items = [(kk, v) for kk, v in d.items()]
            conds = []
            for kk, v in items:
                c = z3.simplify(T(eq(k, kk)))
                if not is_false(c): conds.append((c, v))
            h = Or(*[c for c, v in conds])
            if not conds: self.raise_(KeyError)
            if not all(isinstance(v, (int, str, bool)) for c, v in conds) and not all(is_record(v) for c, v in conds):
                j = self.ctx.choose([c for c, v in conds] + [Not(h)])
                if j == len(conds): self.raise_(KeyError)
                return conds[j][1]
            t = merge_vals(conds)
        if not self.ctx.branch(h): self.raise_(KeyError)
        return t

    def tree(self, d, k):
        """nested if-then-else over a table keyed by tuples; returns (value, present)"""
        items = [(kk, v) for kk, v in d.items() if type(kk) is tuple and len(kk) == len(k)]

        def go(items, pos):
            if not items: return None, FALSE
            if pos == len(k): return items[0][1], TRUE
            x = k[pos]
            groups = {}
            for kk, v in items:
                groups.setdefault(id(kk[pos]) if not isinstance(kk[pos], (int, str)) else kk[pos], (kk[pos], []))[1].append((kk, v))
            val, has = None, FALSE
            for kv, sub in groups.values():
                c = z3.simplify(T(eq(x, kv)))
                if is_false(c): continue
                v2, h2 = go(sub, pos + 1)
                if is_false(T(h2)): continue
                val = v2 if val is None else ite(c, v2, val)
                has = If(c, T(h2), has)
                if is_true(c):
                    val, has = v2, h2
                    break
            return val, z3.simplify(T(has))
        val, has = go(items, 0)
        if val is None: self.raise_(KeyError)
        return val, has

    def index(self, o, k):
        if isinstance(k, bool): k = int(k)
        if not isinstance(k, (int, SInt)):
            if isinstance(k, SBool): k = SInt(If(k.t, z3.IntVal(1), z3.IntVal(0)))
            else: self.raise_(TypeError)
        q = self.as_seq(o)
        c = q.concrete()
        if c is not None:
            if isinstance(k, int):
                try: return c[k]
                except IndexError: self.raise_(IndexError)
            n = len(c)
            if not self.ctx.branch(And(k.t >= -n, k.t < n)): self.raise_(IndexError)
            if not c: self.raise_(IndexError)
            if type(o) in (list, tuple) and n > 1 and all(type(x) is tuple and not has_sym(x) for x in c):
                return STable(o, self.from_start(k.t, n))
            idx = If(k.t < 0, k.t + n, k.t)
            return merge_vals([(idx == j, v) for j, v in enumerate(c)])
        if isinstance(k, int) and k >= 0:
            # leading unconditional units
            for j, s in enumerate(q.segs):
                if isinstance(s, GU) and is_true(T(s.g)):
                    if j == k: return s.v
                else: break
        if k == 0 and len(q.segs) == 1 and isinstance(q.segs[0], FMap) and not is_true(T(q.segs[0].guard)) and not self.ctx.ivars:
            # first element that passes the filter
            s = q.segs[0]
            if not self.ctx.branch(self.nonempty(q)): self.raise_(IndexError)
            e = self.ctx.fresh(z3.IntSort(), 'first')
            self.ctx.assume(And(e >= 0, e < s.n, s.guard_at(e), *s.facts_at(e)))
            self.ctx.witness(e, s.var, s.n, s.guard)
            return s.at(e)
        n = self.seq_len(q)
        kt = lift(k).t
        if isinstance(k, int) and k < 0: kt = n + kt
        if not self.ctx.branch(And(kt >= 0, kt < n) if not isinstance(k, SInt) else And(kt >= -n, kt < n)): self.raise_(IndexError)
        if isinstance(k, SInt): kt = self.from_start(kt, n)
        return self.seq_at(q, kt)

    def from_start(self, kt, n):
        kt = z3.simplify(kt)
        return kt if self.ctx.entails(kt >= 0) else z3.simplify(If(kt < 0, kt + n, kt))

    def seq_len(self, q):
        tot = []
        for s in q.segs:
            if isinstance(s, GU):
                tot.append(z3.IntVal(1) if is_true(T(s.g)) else If(s.g, z3.IntVal(1), z3.IntVal(0)))
            elif is_true(T(s.guard)): tot.append(s.n)
            else:
                c = self.ctx.fresh(z3.IntSort(), 'count')
                self.ctx.assume(And(c >= 0, c <= s.n))
                ne = self.nonempty(Seq([s]))
                self.ctx.assume((c > 0) == T(ne))
                tot.append(c)
        if not tot: return z3.IntVal(0)
        return z3.simplify(z3.Sum(tot)) if len(tot) > 1 else tot[0]

    def seq_at(self, q, kt):
        """element at position kt (in range)"""
        off = z3.IntVal(0)
        alts = []
        for s in q.segs:
            if isinstance(s, GU):
                if not is_true(T(s.g)): raise Unsupported('position in a filtered sequence')
                alts.append((kt == off, s.v))
                off = off + 1
            else:
                if not is_true(T(s.guard)): raise Unsupported('position in a filtered sequence')
                loc = z3.simplify(kt - off)
                for f in s.facts_at(loc): self.ctx.assume(Implies(And(loc >= 0, loc < s.n), f))
                alts.append((And(kt >= off, kt < off + s.n), s.at(loc)))
                off = off + s.n
        if not alts: self.raise_(IndexError)
        return merge_vals(alts)

    def setitem(self, o, k, v):
        o = self.resolve(o)
        k = self.simp(self.resolve(k))
        if isinstance(o, HDict):
            self.writable(o)
            if isinstance(k, (HList, HDict, HSet)): self.raise_(TypeError, 'unhashable type')
            if has_sym(k) or o.log:
                if isinstance(k, SRec):
                    k = self.concretize(k)
                elif not isinstance(k, (SStr, SInt, SOpaque, str, int)) and has_sym(k): raise Unsupported('symbolic dict key')
                if has_sym(k) or o.log:
                    o.log = o.log + [(TRUE, k, v)]
                    if o.keysort is None: o.keysort = lift(k).t.sort()
                    return
            self.entering(o.ent, k, TRUE)
            o.ent[k] = (TRUE, v)
            return
        if isinstance(o, HList):
            self.writable(o)
            q = o.seq
            c = q.concrete()
            if c is not None and isinstance(k, int):
                if not -len(c) <= k < len(c): self.raise_(IndexError)
                segs = list(q.segs)
                segs[k] = GU(TRUE, v)
                o.seq = Seq(segs)
                return
            n = self.seq_len(q)
            kt = lift(k).t
            if not self.ctx.branch(And(kt >= -n, kt < n)): self.raise_(IndexError)
            kt = self.from_start(kt, n)
            if c is not None:
                o.seq = Seq([GU(TRUE, ite(kt == j, v, x)) for j, x in enumerate(c)])
                return
            if len(q.segs) != 1: raise Unsupported('assignment into a composite sequence')
            s = q.segs[0]
            if not is_true(T(s.guard)): raise Unsupported('assignment into a filtered sequence')
            var = z3.Int('i!%d' % next(_counter))
            new = FMap(var, s.n, TRUE, ite(var == kt, v, s.at(var)), s.facts_at(var))
            new.upd = (s, kt, v)
            o.seq = Seq([new])
            return
        if isinstance(o, HObj):
            m = self.class_attr(o.cls, '__setitem__')
            if m is not None: return self.call(m, (o, k, v))
        if isinstance(o, (list, dict)): raise Unsupported('assignment into a module-level container')
        self.raise_(TypeError, 'item assignment')

    def delitem(self, o, k):
        o = self.resolve(o)
        k = self.simp(self.resolve(k))
        if isinstance(o, HDict) and not has_sym(k) and o.is_fin():
            self.writable(o)
            if k not in o.ent: self.raise_(KeyError)
            if not self.ctx.branch(o.ent[k][0]): self.raise_(KeyError)
            e = Ent(o.ent)
            del e[k]
            o.ent = e
            return
        if isinstance(o, HDict) and not isinstance(k, HEAP):
            self.writable(o)
            if not self.ctx.branch(self.dict_has(o, k)): self.raise_(KeyError)
            kt = lift(k)
            def other(x):
                try: return Not(eq(x, k))
                except NotComparable: raise Unsupported('dict key')
            e = Ent(o.ent)
            for x, (p, v) in o.ent.items(): e[x] = (And(p, other(x)), v)
            o.ent = e
            o.log = [(And(g, other(x)), x, v) for g, x, v in o.log]
            if o.base is not None and hasattr(kt, 't') and kt.t.sort() == o.keysort: o.base = LessBase(o.base, kt.t)
            return
        raise Unsupported('del item')

    def getslice(self, o, lo, hi, step):
        o = self.resolve(o)
        if not any(has_sym(x) for x in (o, lo, hi, step)):
            r = o[slice(lo, hi, step)]
            return self.new_list(r) if isinstance(r, list) else r
        if step is not None and type(step) is not int: raise Unsupported('slice step')
        if step == 1: step = None
        if step is not None:
            if not isinstance(o, (HList, STuple, tuple, list)): raise Unsupported('slice step')
            q = self.as_seq(o)
            c = q.concrete()
            if step == 0: self.raise_(ValueError, 'slice step')
            if c is not None and type(lo) in (int, type(None)) and type(hi) in (int, type(None)): r = Seq([GU(TRUE, x) for x in c[slice(lo, hi, step)]])
            elif step == -1 and lo is None and hi is None: r = backwards(q)
            else: raise Unsupported('slice step')
            if isinstance(o, (HList, list)): return self.ctx.reg(HList(r))
            c = r.concrete()
            return tuple(c) if c is not None else STuple(r)
        if isinstance(o, (SStr, str)):
            t = lift(o).t
            n = z3.Length(t)
            a = self.slice_bound(lo, n, z3.IntVal(0))
            b = self.slice_bound(hi, n, n)
            if lo is None and hi is None: return o
            return SStr(z3.SubString(t, a, b - a if not (z3.is_int_value(a) and a.as_long() == 0) else b)) if not (z3.is_expr(b - a)) else SStr(z3.If(b > a, z3.SubString(t, a, b - a), sv('')))
        if isinstance(o, SView): self.raise_(TypeError, 'not subscriptable')
        if isinstance(o, (HList, STuple, tuple, list)):
            q = self.as_seq(o)
            c = q.concrete()
            if c is not None and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                r = Seq([GU(TRUE, x) for x in c[slice(lo, hi)]])
            else:
                r = self.slice_seq(q, lo, hi)
            if isinstance(o, (HList, list)): return self.ctx.reg(HList(r))
            c = r.concrete()
            return tuple(c) if c is not None else STuple(r)
        if isinstance(o, (HIter, HSet)): self.raise_(TypeError, 'not subscriptable')
        raise Unsupported('slice')

    def slice_bound(self, x, n, default):
        if x is None: return default
        x = lift(x).t
        xs = z3.simplify(x)
        if z3.is_int_value(xs):
            k = xs.as_long()
            if k == 0: return xs
            if k > 0: return If(n < k, n, xs)
            return If(n + k < 0, z3.IntVal(0), n + k)
        return If(x < 0, If(n + x < 0, z3.IntVal(0), n + x), If(x > n, n, x))

    def slice_seq(self, q, lo, hi):
        segs = list(q.segs)
        # drop leading units
        if isinstance(lo, int) and lo > 0 and hi is None:
            while lo and segs and isinstance(segs[0], GU) and is_true(T(segs[0].g)):
                segs.pop(0)
                lo -= 1
            if not lo: return Seq(segs)
        if isinstance(hi, int) and hi < 0 and (lo in (None, 0)):
            while hi and segs and isinstance(segs[-1], GU) and is_true(T(segs[-1].g)):
                segs.pop()
                hi += 1
            if not hi: return Seq(segs)
        if len(segs) == 1 and isinstance(segs[0], FMap) and is_true(T(segs[0].guard)):
            s = segs[0]
            a = self.slice_bound(lo, s.n, z3.IntVal(0))
            b = self.slice_bound(hi, s.n, s.n)
            var = z3.Int('i!%d' % next(_counter))
            return Seq([FMap(var, z3.simplify(If(b > a, b - a, z3.IntVal(0))), TRUE, s.at(var + a), s.facts_at(var + a))])
        if not segs: return Seq([])
        if lo in (None, 0) and hi is None: return q
        raise Unsupported('slice of a composite sequence')

    def as_seq(self, v, whole=False, anyhow=False):
        """the elements of an iterable; whole: nothing else happens until the last one is read; anyhow: neither their order nor
        repetitions matter ('bag': their order does not)"""
        v = self.resolve(v)
        if isinstance(v, HIter): return self.drain(v, whole, anyhow)
        if isinstance(v, SView): return v.read(anyhow)
        if isinstance(v, (HList, STuple)): return v.seq
        if isinstance(v, HSet):
            if anyhow is not True and not (len(v.seq.segs) < 2 and all(isinstance(s, GU) for s in v.seq.segs)): raise Unsupported('order of a set')
            return v.seq
        if isinstance(v, (set, frozenset)) and len(v) > 1 and not anyhow: raise Unsupported('order of a set')
        if isinstance(v, (tuple, list)): return Seq([GU(TRUE, x) for x in v])
        if isinstance(v, HDict):
            return self.dict_keys(v, anyhow)
        if isinstance(v, SStr):
            if z3.is_app_of(v.t, z3.Z3_OP_ITE):
                # one name for the text, so that what is said about its characters has one subject
                t = self.ctx.fresh(z3.StringSort(), 'text')
                self.ctx.assume(t == v.t)
                v = SStr(t)
            n = z3.Length(v.t)
            i = z3.Int('i!%d' % next(_counter))
            return Seq([FMap(i, n, TRUE, SStr(z3.SubString(v.t, i, 1)), (), v)])
        if isinstance(v, (str, dict, range, frozenset, set)) or hasattr(v, '__iter__') and not has_sym(v) and not isinstance(v, type):
            if hasattr(v, '__next__') and not isinstance(v, (types.GeneratorType, zip, enumerate, map, filter, reversed)) : 
                pass
            return Seq([GU(TRUE, x) for x in v])
        if v is None or isinstance(v, (int, SInt, SBool, SRec, HObj)):
            if isinstance(v, HObj) and self.class_attr(v.cls, '__iter__') is not None: raise Unsupported('__iter__')
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def drain(self, it, whole=False, anyhow=False):
        ctx = self.ctx
        if it.state == 'done': return Seq([])
        if it.state != 'new': raise Unsupported('an iterator that may have been read before')
        self.writable(it)
        it.state = 'part'
        if it.seq is not None:
            if any(not ctx.same_state(o, st, ctx.state(o)) for o, st in it.saw): raise Unsupported('a list changed while it is iterated')
            q = it.seq
        elif whole: q = it.run(True)
        else:
            start, before = len(ctx.wlog), set(ctx.heap)
            try: q = it.run('any' if anyhow is True else anyhow)
            except SymRaise: raise Unsupported('an exception in an iterator that need not be read to its end')
            written = [o for o in ctx.wlog[start:] if not isinstance(o, HIter)]
            if it.deps is not None and written:
                if any(o is None or id(o) in before for o in written): raise Unsupported('an iterator with side effects')
                if self.reaches([s.v if isinstance(s, GU) else s.elem for s in q.segs], written): raise Unsupported('an iterator that changes what it has yielded')
        if whole: self.finished(it)
        return q

    def finished(self, it):
        """every element of the iterator was read"""
        if not isinstance(it, HIter): return
        self.writable(it)
        it.state, it.seq = 'done', None
        for x in it.inner: self.finished(x)

    def watch(self, it):
        """what the code of an iterator depends on, before a loop that runs in between its steps"""
        if not isinstance(it, HIter): return None
        its, all_ = [it], []
        while its:
            x = its.pop()
            all_.append(x)
            its.extend(y for y in x.inner if isinstance(y, HIter))
        names = [p for x in all_ if x.deps is not None for p in x.deps()[1]]
        return len(self.ctx.wlog), [(e, x, e.vars.get(x)) for e, x in names], any(x.deps is not None for x in all_)

    def watched(self, it, w):
        if w is None or not w[2]: return
        for e, x, v in w[1]:
            if e.vars.get(x) is not v: raise Unsupported('a variable of an iterator changed while it is read')
        written = [o for o in self.ctx.wlog[w[0]:] if o is not it]
        if not written: return
        if any(o is None for o in written) or self.reaches([it], written): raise Unsupported('what an iterator refers to changed while it is read')

    def entering(self, e, k, g):
        """a key is about to be inserted if g: where it ends up among the entries"""
        if e.order is None and k in e and not is_true(T(e[k][0])) and not is_false(T(g)):
            later = list(e)[list(e).index(k) + 1:]
            if is_false(T(e[k][0])): del e[k]
            elif any(not is_false(T(e[x][0])) for x in later): e.order = 'unknown'

    def entries(self, d, anyhow=False):
        """the entries of a finite dict in their order; anyhow: it does not matter"""
        e = d.ent
        items = list(e.items())
        if e.order is None or anyhow or len([1 for k, (p, v) in items if not is_false(T(p))]) < 2: return items
        if isinstance(e.order, str): raise Unsupported('order of a dict')
        self.used_trusted.add('the order in which the categories of a property set were given: the declared one or its reverse')
        return items if self.ctx.branch(e.order) else items[::-1]

    def dict_keys(self, d, anyhow=False):
        if not d.is_fin():
            i, n, k, facts = self.enumeration(d)
            return Seq([FMap(i, n, TRUE, SStr(k), facts)])
        return Seq([GU(p, k) for k, (p, v) in self.entries(d, anyhow)])

    def dict_values(self, d):
        i, n, k, facts = self.enumeration(d)
        v = dict_at(d, k)[1]
        if isinstance(v, (HList, HDict, HSet, SUnion)): raise Unsupported('values of a symbolic dict')
        return Seq([FMap(i, n, TRUE, v, facts)])

    def enumeration(self, d):
        """the keys of a symbolic dict in some order: (index, number, key at index, facts)"""
        ctx = self.ctx
        if d.keysort is None or d.keysort != z3.StringSort(): raise Unsupported('iteration over a symbolic dict')
        now = ctx.state(d)
        for o, st, e in self.enums:
            if ctx.same_state(d, st, now): return e
        if ctx.ivars: raise Unsupported('iteration over a symbolic dict per element')
        c = next(_counter)
        i, n = z3.Int('i!%d' % c), z3.Int('keys!%d' % c)
        K, at = z3.Function('key!%d' % c, z3.IntSort(), z3.StringSort()), z3.Function('at!%d' % c, z3.StringSort(), z3.IntSort())
        ctx.assume(n >= 0)
        x, y = z3.Const('k!%d' % c, z3.StringSort()), z3.Int('y!%d' % c)
        found = lambda q: Implies(dict_at(d, q)[0], And(at(q) >= 0, at(q) < n, K(at(q)) == q))
        here = lambda j: Implies(And(j >= 0, j < n), And(dict_at(d, K(j))[0], at(K(j)) == j))
        for q in ctx.probes:
            if q.sort() == x.sort():
                ctx.assume(found(q))
                ctx.point(at(q))
        ctx.defer(q_forall(x, found(x)))
        ctx.defer(q_forall(y, here(y)))
        e = (i, n, K(i), [T(dict_at(d, K(i))[0])])
        self.enums.append((d, now, e))
        return e

    def dict_update(self, d, other):
        other = self.resolve(other)
        self.writable(d)
        if isinstance(other, dict): other = HDict({k: (TRUE, v) for k, v in other.items()})
        if isinstance(other, SView) and other.kind == 'items' and isinstance(other.of, HDict): other = other.of
        if not isinstance(other, HDict) or not other.is_fin():
            if isinstance(other, (HList, STuple, tuple, list)):
                for s in self.as_seq(other).segs:
                    if isinstance(s, FMap): raise Unsupported('dict.update with a symbolic sequence')
                    k, v = self.pair(s.v)
                    if not is_true(T(s.g)):
                        if isinstance(self.simp(self.resolve(k)), Sym): raise Unsupported('dict.update with a symbolic sequence')
                        self.dict_update(d, HDict({self.simp(self.resolve(k)): (s.g, v)}))
                        continue
                    self.setitem(d, k, v)
                return
            raise Unsupported('dict.update')
        if d.log: raise Unsupported('update of a symbolic dict')
        e = Ent(d.ent)
        e.order = join_orders([e.order, other.ent.order])
        for k, (p, v) in other.ent.items():
            self.entering(e, k, p)
            if is_true(T(p)): e[k] = (TRUE, v)
            elif k in e:
                p0, v0 = e[k]
                e[k] = (z3.simplify(Or(p, p0)), ite(p, v, v0))
            else:
                if d.base is not None: raise Unsupported('update of a symbolic dict')
                e[k] = (p, v)
        d.ent = e

    def method(self, o, name, args, kwargs):
        from .methods import call_method
        return call_method(self, o, name, args, kwargs)


class StarSeq(object):
    def __init__(self, seq): self.seq = seq


class BuiltinMethod(object):
    def __init__(self, o, name): self.o, self.name = o, name


def T2(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v.t


NOVAL = object()
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__'}


def is_rel_method(f):
    m = getattr(f, '__module__', '') or ''
    return m.startswith('rels')


def frozenset_like(vs):
    return set(vs)


def dummy(v):
    if isinstance(v, (Sym,) + HEAP): return 'x'
    if type(v) is tuple: return tuple(dummy(x) for x in v)
    return v


def contains_obj(v):
    if isinstance(v, (HList, STuple)):
        return any(contains_obj(s.v if isinstance(s, GU) else s.elem) for s in v.seq.segs)
    if type(v) is tuple: return any(contains_obj(x) for x in v)
    if isinstance(v, SUnion): return any(contains_obj(x) for g, x in v.alts)
    return isinstance(v, HObj)


def copy_without(n, keep):
    """a copy of an expression in which one node is the original"""
    if n is keep: return n
    out = type(n)(**{k: copy_field(v, keep) for k, v in ast.iter_fields(n)})
    return ast.copy_location(out, n) if hasattr(n, 'lineno') else out


def copy_field(v, keep):
    if isinstance(v, ast.AST): return copy_without(v, keep)
    if isinstance(v, list): return [copy_field(x, keep) for x in v]
    return v


def drop_range(paths, rng):
    """remove the range condition (first condition of every path of a generic iteration)"""
    for p in paths:
        p.conds = [c for c in p.conds if not (c is rng or c.eq(T(rng)))]


import operator
NATIVE_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
              ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
              ast.LShift: operator.lshift, ast.RShift: operator.rshift}
NATIVE_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

from .methods import BUILTINS, b_str, backwards  # noqa
