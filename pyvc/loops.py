"""Symbolic loops: unbounded iteration summarised by induction.

A for-loop over a sequence of symbolic length is executed once for a generic index i from an arbitrary state S(i)
(S(i) = state at the start of iteration i; every modified variable and heap object is an uninterpreted function of i).
 - lists that are only appended to become comprehension terms  [elem(i) for i in range(n) if guard(i)];
 - other state gets  S(0) = initial value, S(n) = value after the loop; facts about S come only from invariants, proved by
   induction: those offered by the contract (ctx.inv_hooks), and equalities with the state of another loop over the same
   sequence (unify), found by a greatest-fixpoint (Houdini) computation."""
import ast
import z3

from . import values
from .values import *
from .core import *
from .core import _counter

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ---------------------------------------------------------------- shapes

def kept(v, fields):
    """shapes of parts of an object: a part that is an object of the heap is that object"""
    return tuple((k, ('same', id(x), x) if isinstance(x, HEAP) and registered(x) else shape(x)) for k, x in fields)


def shape(v):
    if isinstance(v, bool) or isinstance(v, SBool): return ('bool',)
    if isinstance(v, int) or isinstance(v, SInt): return ('int',)
    if isinstance(v, float) or isinstance(v, SReal): return ('real',)
    if isinstance(v, str) or isinstance(v, SStr): return ('str',)
    if v is None: return ('none',)
    if isinstance(v, SRec): return ('rec', v.rel, v.nullable)
    if is_record(v): return ('rec', v._relation, False)
    if type(v) is tuple: return ('tuple',) + tuple(shape(x) for x in v)
    if isinstance(v, SOpaque): return ('opaque', v.t.sort(), v.tag)
    if isinstance(v, SSet): return ('set',)
    if isinstance(v, HObj) and v.ref is not None: return ('ref', v.ref)
    if isinstance(v, HObj): return ('obj', v.cls, kept(v, sorted((k, x) for k, x in v.fields.items() if not k.startswith('_lazy__'))))
    if isinstance(v, HDict) and v.is_fin():
        return ('dict', kept(v, [(k, x) for k, (p, x) in v.ent.items()]))
    if isinstance(v, HDict):
        # a symbolic dict: shape of the value at a generic key
        k = z3.Const('sk!%d' % next(_counter), v.keysort)
        h, x = dict_at(v, k)
        return ('symdict', v.keysort, shape(x))
    if isinstance(v, (HList, STuple)):
        es = None
        for s in v.seq.segs:
            x = shape(s.v if isinstance(s, GU) else s.elem)
            es = x if es is None else join(es, x)
        return ('list' if isinstance(v, HList) else 'stuple', es, v.seq.tok.sort() if v.seq.tok is not None else None)
    if isinstance(v, SUnion):
        r = None
        for g, x in v.alts: r = shape(x) if r is None else join(r, shape(x))
        return r
    if isinstance(v, Poison): return ('poison',)
    return ('const', id(v), v)


def join1(a, b):
    """join of two shapes of the same kind, None when they only fit in a union"""
    if a == b: return a
    if {a[0], b[0]} == {'int', 'real'}: return ('real',)
    if a[0] == 'rec' and b[0] == 'rec' and a[1] is b[1]: return ('rec', a[1], a[2] or b[2])
    if a[0] == b[0] == 'tuple' and len(a) == len(b): return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == b[0] == 'obj' and a[1] is b[1] and [k for k, s in a[2]] == [k for k, s in b[2]]:
        return ('obj', a[1], tuple((k, join(s, t)) for (k, s), (k2, t) in zip(a[2], b[2])))
    if a[0] == b[0] == 'dict':
        d = dict(a[1])
        for k, s in b[1]: d[k] = join(d[k], s) if k in d else s
        return ('dict', tuple(d.items()))
    if {a[0], b[0]} == {'dict', 'symdict'} and min(len(x[1]) for x in (a, b) if x[0] == 'dict') == 0: return a if a[0] == 'symdict' else b
    if a[0] == b[0] == 'symdict' and a[1] == b[1]: return ('symdict', a[1], join(a[2], b[2]))
    if a[0] == b[0] and a[0] in ('list', 'stuple'):
        return (a[0], join(a[1], b[1]), a[2] if a[2] == b[2] else None)
    return None


def join(a, b):
    if a == b: return a
    if a is None: return b
    if b is None: return a
    if a[0] == 'same': return join(shape(a[2]), b)
    if b[0] == 'same': return join(a, shape(b[2]))
    j = join1(a, b)
    if j is not None: return j
    if a == ('none',) and b[0] == 'rec': return ('rec', b[1], True)
    if b == ('none',) and a[0] == 'rec': return ('rec', a[1], True)
    A = list(a[1]) if a[0] == 'union' else [a]
    for y in (list(b[1]) if b[0] == 'union' else [b]):
        for k, x in enumerate(A):
            j = join1(x, y)
            if j is not None:
                A[k] = j
                break
        else:
            A.append(y)
    if ('none',) in A:
        for k, x in enumerate(A):
            if x[0] == 'rec':
                A[k] = ('rec', x[1], True)
                A.remove(('none',))
                break
    return A[0] if len(A) == 1 else ('union', tuple(A))


def havoc(ctx, sh, name='s'):
    k = sh[0]
    f = lambda sort: ctx.fresh(sort, name)
    if k == 'bool': return SBool(f(z3.BoolSort()))
    if k == 'int': return SInt(f(z3.IntSort()))
    if k == 'real': return SReal(f(z3.RealSort()))
    if k == 'str': return SStr(f(z3.StringSort()))
    if k == 'none': return None
    if k == 'rec': return fresh_rec(ctx, sh[1], sh[2], name)
    if k == 'tuple': return tuple(havoc(ctx, x, name) for x in sh[1:])
    if k == 'opaque': return SOpaque(f(sh[1]), sh[2])
    if k == 'set':
        from .interp import SetSort
        return SSet(f(SetSort))
    if k == 'ref': return instance(sh[1], f(Token))
    if k == 'obj': return ctx.reg(HObj(sh[1], {n: havoc(ctx, x, name + '.' + n) for n, x in sh[2]}))
    if k == 'dict':
        ent = Ent({kk: (f(z3.BoolSort()), havoc(ctx, x, name)) for kk, x in sh[1]})
        ent.order = 'unknown'
        return ctx.reg(HDict(ent))
    if k == 'symdict':
        kv = z3.Const('hk!%d' % next(_counter), sh[1])
        # functions of the key as well
        ctx.ivars.append(kv)
        try:
            has = fresh_fn(ctx, z3.BoolSort(), name + '.has')
            val = havoc(ctx, sh[2], name + '.val')
        finally:
            ctx.ivars.pop()
        return ctx.reg(HDict({}, Base(kv, has, val), [], sh[1]))
    if k in ('list', 'stuple'):
        n = f(z3.IntSort())
        n = If(n < 0, z3.IntVal(0), n)
        v = z3.Int('i!%d' % next(_counter))
        if sh[1] is None: q = Seq([])
        else:
            ctx.ivars.append(v)
            try: e = havoc(ctx, sh[1], name)
            finally: ctx.ivars.pop()
            q = Seq([FMap(v, n, TRUE, e)])
        return ctx.reg(HList(q)) if k == 'list' else STuple(q)
    if k == 'union':
        t = f(z3.IntSort())
        m = len(sh[1])
        alts = []
        for j, x in enumerate(sh[1]):
            g = t == j if j < m - 1 else Or(t < 0, t >= m - 1)
            if j == 0: g = t == 0
            alts.append((g, havoc(ctx, x, name)))
        return SUnion(alts)
    if k in ('const', 'same'): return sh[2]
    if k == 'poison': return Poison('loop')
    raise Unsupported('loop state of kind %s' % k)


def fresh_fn(ctx, sort, name):
    f = z3.Function('%s!%d' % (name, next(_counter)), *([v.sort() for v in ctx.ivars] + [sort]))
    return f(*ctx.ivars)


def fresh_rec(ctx, rel, nullable=False, name='r'):
    n = len(rel.records)
    if n == 1 and not nullable: return SRec(rel, z3.IntVal(0))
    u = ctx.fresh(z3.IntSort(), name)
    lo = -1 if nullable else 0
    return SRec(rel, z3.If(z3.And(u >= lo, u < n), u, z3.IntVal(lo)), nullable)


# ---------------------------------------------------------------- loop summary

class Loop(object):
    """seg: the FMap iterated; state: {key: (init, S at var, post at var)}; var: generic index"""
    def __init__(self, seg, var):
        self.seg, self.var, self.state = seg, var, {}
        self.facts = []
        self.inv = []
        self.order = []

    def at(self, key, idx):
        return subst(self.state[key][1], [(self.var, idx)])


class State(object):
    """view of the loop state handed to invariant hooks"""
    def __init__(self, interp, env, loop, get): self.interp, self.env, self.loop, self._get = interp, env, loop, get
    def local(self, name): return self._get(('v', name))
    def keys(self): return list(self.loop.state)
    def get(self, key): return self._get(key)


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
            if isinstance(x, (ast.FunctionDef,)): out.add(x.name)
    return out


def havoc_state(ctx, o, sh):
    """set heap object o to an arbitrary state of the shape"""
    h = detached(ctx, sh, 'h')
    if type(h) is not type(o): raise Unsupported('object of several shapes changed in a loop')
    ctx.set_state(o, ctx.state(h))


def detached(ctx, sh, name):
    """an arbitrary value of the shape; the objects made up for it may not be written to: who else knows them is not known"""
    before = set(ctx.heap)
    v = havoc(ctx, sh, name)
    for k in set(ctx.heap) - before: del ctx.heap[k]
    return v


def copied(I, sh, v, top=False):
    """objects of the heap in a value that the shape does not keep as they are"""
    if sh is None or sh[0] == 'same': return
    if isinstance(v, HObj) and v.ref is None and sh[0] == 'obj':
        if not top: yield v
        d = dict(sh[2])
        for k, x in v.fields.items(): yield from copied(I, d.get(k, ('any',)), x)
    elif isinstance(v, HDict) and sh[0] == 'dict':
        if not top: yield v
        d = dict(sh[1])
        for k, (p, x) in v.ent.items(): yield from copied(I, d.get(k, ('any',)), x)
    else:
        for x in I.reach([v]):
            if isinstance(x, HEAP) and not (top and x is v): yield x


def prev_list(ctx, name):
    n = ctx.fresh(z3.IntSort(), name)
    v = z3.Int('i!%d' % next(_counter))
    return FMap(v, If(n < 0, z3.IntVal(0), n), TRUE, Poison('accumulator'))


def vector(o, base, st, i, s):
    """(True, what is written at the loop index or None) when all the iteration does to the list is assign at that index"""
    if not (isinstance(o, HList) and len(base.segs) == 1 and len(st.segs) == 1): return False, None
    a, b = base.segs[0], st.segs[0]
    if not (isinstance(a, FMap) and isinstance(b, FMap)) or not is_true(T(a.guard)) or not a.n.eq(s.n): return False, None
    if a is b: return True, None
    if b.upd is None or b.upd[0] is not a or not z3.simplify(b.upd[1] - i).eq(z3.IntVal(0)): return False, None
    return True, b.upd[2]


def fmap_loop(I, n, env, s, it):
    ctx = I.ctx
    src = sources(it)
    pre_vars = dict(env.vars)
    names = assigned_names(n.body) | assigned_names([n.target])
    tnames = assigned_names([n.target])
    states = sorted(x for x in names - tnames if x in pre_vars and not isinstance(pre_vars[x], Poison))
    shapes = {}        # local name -> shape
    for x in states: shapes[x] = kept(None, [(x, pre_vars[x])])[0][1]
    fixed = {}         # heap id -> object copied into the state: not to be written to
    lists = {}         # local name -> True when it is an accumulator list rebuilt by concatenation
    hmod = {}          # heap id -> (obj, 'append' | shape)
    ov_mod = {}
    pre_state = {}
    reads_index = None

    for attempt in range(12):
        i = z3.Int('i!%d' % next(_counter))
        ctx.ivars.append(i)
        for k in fixed: ctx.heap.pop(k, None)
        snap = ctx.snapshot()
        svals, prevs, hprev = {}, {}, {}
        try:
            for x in states:
                if lists.get(x):
                    prevs[x] = prev_list(ctx, x)
                    svals[x] = HList(Seq([prevs[x]]))
                else:
                    svals[x] = detached(ctx, shapes[x], x)
            for hid, (o, mode) in hmod.items():
                pre_state.setdefault(hid, ctx.state(o))
                if mode[0] == 'vector':
                    a, (i0, V, vf) = pre_state[hid].segs[0], mode[1:]
                    m = z3.Int('i!%d' % next(_counter))
                    o.seq = Seq([FMap(m, a.n, TRUE, ite(m < i, subst(V, [(i0, m)]), a.at(m)), a.facts_at(m) + [z3.substitute(f, (i0, m)) for f in vf])])
                elif mode == 'append':
                    hprev[hid] = prev_list(ctx, 'acc')
                    o.seq = Seq([hprev[hid]])
                else:
                    havoc_state(ctx, o, mode)
            sstate = {hid: ctx.state(o) for hid, (o, mode) in hmod.items()}
            rng = And(i >= 0, i < s.n, s.guard_at(i))
            loop = Loop(s, i)
            for x in states:
                if not lists.get(x): loop.state[('v', x)] = (pre_vars[x], svals[x], None)
            for hid, (o, mode) in hmod.items():
                if mode != 'append' and mode[0] != 'vector': loop.state[('h', hid)] = (view(o, pre_state[hid]), view(o, sstate[hid]), None)
            invs = []
            for hook in ctx.inv_hooks:
                inv = hook(I, env, loop)
                if inv is not None: invs.append(inv)
            body_vars = dict(pre_vars)
            for x in names:
                if x not in pre_vars: body_vars.pop(x, None)
            body_vars.update(svals)
            save = env.vars
            env.vars = body_vars

            def thunk():
                ctx.add(rng)
                for f in s.facts_at(i): ctx.assume(f)
                for inv in invs: ctx.assume(inv(lambda key: loop.state[key][1], i))
                I.loop_body(n, env, s.at(i))
            paths = I.run_sub(thunk, env)
            env.vars = save
        finally:
            ctx.ivars.pop()
            ctx.restore(snap)
        for p in paths:
            for k in p.value[2]: ctx.heap.pop(k, None)
        drop_first(paths, rng)
        again = False
        for p in paths:
            pv = p.value[1]
            if p.kind in ('next', 'break'):
                for x in states:
                    if x not in pv: raise Unsupported('variable %s deleted in loop' % x)
                    v = pv[x]
                    if lists.get(x):
                        if not (isinstance(v, HList) and v.seq.segs and v.seq.segs[0] is prevs[x]): raise Unsupported('accumulator %s' % x)
                        continue
                    if isinstance(v, HEAP) and v is svals[x]: continue
                    if isinstance(v, HList) and v is not svals[x] and isinstance(svals[x], HList) and p.kind == 'next' \
                            and len(v.seq.segs) >= len(svals[x].seq.segs) and all(a is b for a, b in zip(v.seq.segs, svals[x].seq.segs)) and x not in lists:
                        lists[x] = True
                        again = True
                        continue
                    sh = join(shapes[x], shape(v))
                    if sh != shapes[x]:
                        shapes[x] = sh
                        again = True
            for hid, (o, st) in p.heap[0].items():
                if hid not in snap[0]: continue
                if hid not in hmod or (hmod[hid][1] == 'append' and hid not in hprev):
                    base = snap[0][hid][1]
                    if isinstance(o, HList) and len(st.segs) >= len(base.segs) and all(a is b for a, b in zip(st.segs, base.segs)):
                        hmod[hid] = (o, 'append')
                    elif not states and not hmod and s.n.eq(z3.simplify(s.n)) and is_true(T(s.guard)) and all(q.kind == 'next' and set(q.heap[0]) <= {hid} for q in paths) \
                            and all(vector(o, base, q.heap[0][hid][1] if hid in q.heap[0] else base, i, s)[0] for q in paths):
                        # each iteration assigns at its own index: what it writes when the list is as before the loop; shown to be what it writes, below
                        w = [(q, vector(o, base, q.heap[0][hid][1] if hid in q.heap[0] else base, i, s)[1] if hid in q.heap[0] else None) for q in paths]
                        V = merge_vals([(q.cond(), base.segs[0].at(i) if v is None else v) for q, v in w])
                        hmod[hid] = (o, ('vector', i, V, [Implies(q.cond(), f) for q in paths for f in q.facts] + [Or(*[And(q.cond(), *q.facts) for q in paths])]))
                    else:
                        hmod[hid] = (o, join(shape(view(o, base)), shape(view(o, st))))
                    again = True
                else:
                    mode = hmod[hid][1]
                    if mode[0] == 'vector': pass
                    elif mode == 'append':
                        if not st.segs or st.segs[0] is not hprev[hid]:
                            hmod[hid] = (o, join(shape(view(o, snap[0][hid][1])), shape(view(o, st))))
                            again = True
                    else:
                        sh = join(mode, shape(view(o, st)))
                        if sh != mode:
                            hmod[hid] = (o, sh)
                            again = True
            if p.heap[1]: raise Unsupported('module global assigned in a symbolic loop')
        now = {}
        for p in paths:
            if p.kind not in ('next', 'break'): continue
            for x in states:
                if lists.get(x): now[id(pre_vars[x])] = pre_vars[x]
                else:
                    for v in (pre_vars[x], p.value[1][x]): now.update((id(o), o) for o in copied(I, shapes[x], v))
            for hid, (o, mode) in hmod.items():
                if mode == 'append' or mode[0] == 'vector': continue
                for st in (snap[0][hid][1] if hid not in pre_state else pre_state[hid], p.heap[0][hid][1] if hid in p.heap[0] else None):
                    if st is not None:
                        v = view(o, st)
                        now.update((id(y), y) for y in copied(I, mode, v) if y is not v)
        for k, o in now.items():
            if k in fixed or not registered(o): continue
            if k in hmod: raise Unsupported('an object changed in a loop is known by several names')
            fixed[k] = o
            again = True
        if not again: break
    else:
        raise Unsupported('loop state does not stabilise')

    for hid, (o, mode) in hmod.items():
        if mode[0] == 'vector': vector_step(ctx, o, mode, s, i, paths, sstate[hid])
    for o, aligned in src:
        if id(o) in hmod and not (aligned and hmod[id(o)][1][0] == 'vector'): raise Unsupported('a list changed while it is iterated')

    # a list rebuilt by the loop belongs to its variable when nothing else refers to it
    own = {}
    for x in states:
        if lists.get(x):
            own[x] = not I.aliased(pre_vars[x], env, x) and all(not I.reaches([v for y, v in p.value[1].items() if y != x] + [p.value[0]] + [st if not isinstance(o, HEAP) else view(o, st) for o, st in p.heap[0].values() if not isinstance(o, HIter)],
                                                                              [p.value[1][x]]) for p in paths)

    # ---- normal continuation and abnormal exits
    nm = [p for p in paths if p.kind == 'next']
    ab = [p for p in paths if p.kind != 'next']
    gi = s.guard_at(i)
    sfacts = s.facts_at(i)

    def items(p, hid=None, x=None):
        if x is not None: return p.value[1][x].seq.segs[1:]
        if hid in p.heap[0]: return p.heap[0][hid][1].segs[1:]
        return []

    facts = list(sfacts)
    for p in paths:
        for f in p.facts: facts.append(Implies(And(gi, p.cond()), f))

    # post-state of a normal iteration, merged over its paths
    for key in list(loop.state):
        init, sval, _ = loop.state[key]
        vals = []
        for p in nm:
            if key[0] == 'v':
                v = p.value[1][key[1]]
                if isinstance(v, HObj) and id(v) in p.heap[0]: v = HObj(v.cls, dict(p.heap[0][id(v)][1]))
                elif isinstance(v, HDict) and id(v) in p.heap[0]: v = view(v, p.heap[0][id(v)][1])
            else:
                o = hmod[key[1]][0]
                v = view(o, p.heap[0][key[1]][1]) if key[1] in p.heap[0] else sval
            vals.append((p.cond(), v))
        post = merge_vals(vals) if vals else sval
        loop.state[key] = (init, sval, post)
    for hid, (o, mode) in hmod.items():
        # what a dict that is being changed holds under the keys the goal asks about
        if mode == 'append' or mode[0] != 'symdict' or not nm: continue
        for q in ctx.probes:
            if q.sort() != mode[1]: continue
            try:
                loop.state['p', hid, str(q)] = (probe(view(o, pre_state[hid]), q), probe(view(o, sstate[hid]), q),
                                                merge_vals([(p.cond(), probe(view(o, p.heap[0][hid][1] if hid in p.heap[0] else sstate[hid]), q)) for p in nm]))
            except NotComparable: pass
    loop.facts = facts
    loop.inv = invs
    ctx.loops.append(loop)

    # invariants: base and step obligations
    for inv in invs:
        nm_ = getattr(inv, 'name', 'invariant')
        o = ctx.prove(inv(lambda key: loop.state[key][0], z3.IntVal(0)), 'loop invariant %s holds initially' % nm_)
        ctx.solver.push()
        ctx.solver.add(i >= 0, i < s.n)
        for f in facts: ctx.solver.add(f)
        for inv2 in invs: ctx.solver.add(T(inv2(lambda key: loop.state[key][1], i)))
        st = lambda key: loop.state[key][2]
        nabs = [Not(p.cond()) for p in ab]
        ctx.prove(Implies(And(gi, *nabs), inv(st, i + 1)), 'loop invariant %s is preserved' % nm_)
        if not is_true(T(gi)):
            ctx.prove(Implies(Not(gi), inv(lambda key: loop.state[key][1], i + 1)), 'loop invariant %s over skipped elements' % nm_)
        ctx.solver.pop()

    def conclude(idx):
        """invariants at iteration idx (inside 0..n)"""
        for inv in invs:
            ctx.assume(inv(lambda key: subst(loop.state[key][1], [(i, idx)]), idx))

    def drop_fixed():
        for k in fixed: ctx.heap.pop(k, None)

    def set_lists(upto, extra=None, e=None):
        acc = {}
        for x in states:
            if not lists.get(x): continue
            segs = append_segs([(p, items(p, x=x)) for p in nm], i, upto, gi, facts, s)
            old = pre_vars[x].seq.segs
            if extra is not None: segs = segs + [GU(g.g, g.v) for g in extra_items(items(extra, x=x), i, e)]
            env.vars[x] = HList(Seq(list(old) + segs))
            if own[x]: ctx.reg(env.vars[x])
        for hid, (o, mode) in hmod.items():
            if mode != 'append': continue
            segs = append_segs([(p, items(p, hid=hid)) for p in nm], i, upto, gi, facts, s)
            if extra is not None: segs = segs + extra_items(items(extra, hid=hid), i, e)
            o.seq = Seq(list(o.seq.segs) + segs)

    def final(idx):
        for x in names:
            if x not in pre_vars or x in tnames: env.vars[x] = Poison('loop variable')
        for x in states:
            if lists.get(x): continue
            env.vars[x] = subst(svals[x], [(i, idx)])
        for hid, (o, mode) in hmod.items():
            if mode == 'append': continue
            if mode[0] == 'vector':
                m, a = z3.Int('i!%d' % next(_counter)), pre_state[hid].segs[0]
                o.seq = Seq([FMap(m, a.n, TRUE, subst(mode[2], [(mode[1], m)]), a.facts_at(m) + [z3.substitute(f, (mode[1], m)) for f in mode[3]])])
                continue
            v = subst(view(o, sstate[hid]), [(i, idx)])
            ctx.set_state(o, ctx.state(v))

    dep_state = bool(loop.state) or bool(lists) or bool(hmod)
    if ab:
        cond = And(rng, Or(*[p.cond() for p in ab]))
        if not loop.state:
            ex = ctx.exists(i, s.n, cond, facts)
            k = ctx.choose([ex, Not(ex)])
        else:
            k = ctx.choose([TRUE_VAR(ctx), FALSE_VAR(ctx)])
        if k == 0:
            e = ctx.fresh(z3.IntSort(), 'first')
            sub = lambda t: z3.substitute(T(t), (i, e))
            ctx.add(sub(cond))
            for f in s.facts_at(e): ctx.assume(f)
            conclude(e)
            if not loop.state: ctx.witness(e, i, s.n, cond)
            else:
                j = z3.Int('j!%d' % next(_counter))
                ctx.defer(z3.ForAll([j], Implies(And(j >= 0, j < e), Not(z3.substitute(cond, (i, j))))))
            kk = ctx.choose([sub(p.cond()) for p in ab])
            p = ab[kk]
            for f in p.facts: ctx.assume(sub(f))
            with entering(ctx, p.value[2]):
                set_lists(e, p, e)
                final_vars = {x: subst(v, [(i, e)]) for x, v in p.value[1].items() if x in names and not lists.get(x)}
                for hid, (o, st) in p.heap[0].items():
                    if hid in hmod and hmod[hid][1] == 'append': continue
                    ctx.set_state(o, ctx.state(subst(view(o, st), [(i, e)])))
                result = subst(p.value[0], [(i, e)])
            for hid, (o, mode) in hmod.items():
                if mode != 'append' and mode[0] != 'vector' and hid not in p.heap[0]:
                    ctx.set_state(o, ctx.state(subst(view(o, sstate[hid]), [(i, e)])))
            env.vars.update(final_vars)
            drop_fixed()
            if p.kind == 'raise': raise SymRaise(result)
            if p.kind == 'return': raise ReturnEx(result)
            raise BreakEx()
        j = z3.Int('j!%d' % next(_counter))
        ctx.defer(z3.ForAll([j], Implies(And(j >= 0, j < s.n), Not(z3.substitute(cond, (i, j))))))
    conclude(s.n)
    set_lists(s.n)
    final(s.n)
    drop_fixed()
    if not ab and not ctx.ivars:
        try: folds(I, env, loop, s, i, gi, facts, lambda x: x not in tnames)
        except NotComparable: pass


class entering(object):
    """the objects an iteration made become objects of the path that goes on from it"""
    def __init__(self, ctx, new): self.ctx, self.new, self.done = ctx, new, {}

    def copy(self, v, pairs):
        if id(v) not in self.done:
            del values.COPIES[id(v)]
            try: self.done[id(v)] = self.ctx.reg(subst(v, pairs))
            finally: values.COPIES[id(v)] = self.copy
        return self.done[id(v)]

    def __enter__(self):
        self.was, values.COPIES = values.COPIES, {k: self.copy for k in self.new}

    def __exit__(self, *a): values.COPIES = self.was


def vector_step(ctx, o, mode, s, i, paths, base):
    """every iteration i leaves at index i what was guessed, and nothing changes elsewhere"""
    i0, V, vf = mode[1:]
    for p in paths:
        ok, w = vector(o, base, p.heap[0][id(o)][1] if id(o) in p.heap[0] else base, i, s)
        if not ok or p.kind != 'next': raise Unsupported('list changed in a loop')
        if w is None: w = base.segs[0].at(i)
        ctx.solver.push()
        try:
            ctx.solver.add(i >= 0, i < s.n, p.cond(), *[T(f) for f in p.facts])
            ctx.solver.add(*[z3.substitute(f, (i0, i)) for f in vf])
            if not ctx.entails(eq(w, subst(V, [(i0, i)]))): raise Unsupported('list changed in a loop')
        finally: ctx.solver.pop()


def folds(I, env, loop, s, i, gi, facts, keep):
    """running maxima: state x with  x' = max(x, e(i)) when g(i), and states y that change exactly when x does, to v(i)"""
    ctx = I.ctx
    rng = And(i >= 0, i < s.n)
    states = {k: v for k, v in loop.state.items() if k[0] == 'v' and keep(k[1])}
    for k, v in list(states.items()):
        # a pair is its components
        parts = [components(x) for x in v]
        if None in parts or len({len(x) for x in parts}) != 1: continue
        del states[k]
        for j, x in enumerate(zip(*parts)): states[k + (j,)] = x
    whole = set(states) - set(loop.state)

    def leave(k, v):
        if k not in whole: env.vars[k[1]] = v
        else:
            old = components(subst(loop.state[k[:2]][1], [(i, s.n)])) if k[:2] not in left else left[k[:2]]
            left[k[:2]] = env.vars[k[1]] = old[:k[2]] + (v,) + old[k[2] + 1:]
    left = {}
    decls = set()
    for k, (init, sval, post) in loop.state.items(): collect_decls(sval, decls)
    for k, (init, sval, post) in states.items():
        if first_or_better(I, env, loop, s, i, gi, facts, decls, states, k, leave): continue
        for sign in (1, -1):
            m = running(ctx, i, s.n, gi, facts, decls, sval, post, sign)
            if m is None: continue
            g, e = m
            real = isinstance(sval, SReal)
            x0 = number(init, real)
            if x0 is None: continue
            x0, p = x0.t, number(post, real).t
            last = lift(subst(sval, [(i, s.n)])).t
            better = (lambda a, b: a > b) if sign > 0 else (lambda a, b: a < b)
            up = ctx.exists(i, s.n, And(g, better(e, x0)), facts)
            comp = {}
            for k2, (init2, sval2, post2) in states.items():
                if k2 == k: continue
                v = companion(ctx, i, s.n, gi, facts, decls, sval, p, g, e, sval2, post2, better)
                if v is not None: comp[k2] = v
            if ctx.choose([up, Not(up)]) == 0:
                w = ctx.fresh(z3.IntSort(), 'best')
                at = lambda t: z3.substitute(T(t), (i, w))
                ctx.assume(And(w >= 0, w < s.n, at(g), last == z3.substitute(e, (i, w)), better(last, x0)))
                for f in facts: ctx.assume(z3.substitute(f, (i, w)))
                ctx.assume(Not(ctx.exists(i, s.n, And(g, better(e, last)), facts)))
                ctx.witness(w, i, s.n, And(g, e == last))
                for k2, v in comp.items(): leave(k2, subst(v, [(i, w)]))
            else:
                ctx.assume(last == x0)
                for k2 in comp: leave(k2, states[k2][0])
            break


def components(v):
    if type(v) is tuple: return v
    if isinstance(v, SUnion) and all(type(x) is tuple for g, x in v.alts) and len({len(x) for g, x in v.alts}) == 1:
        try: return tuple(merge_vals([(T(g), x[j]) for g, x in v.alts]) for j in range(len(v.alts[0][1])))
        except NotComparable: return None


def optional(v):
    """(is it None, the number otherwise) of a state that is None or a number"""
    if v is None: return TRUE, None
    if not isinstance(v, SUnion):
        v = lift(v)
        return (FALSE, v) if isinstance(v, (SInt, SReal)) else None
    none = [T(g) for g, x in v.alts if x is None]
    some = [(g, x) for g, x in v.alts if x is not None]
    if not some: return TRUE, None
    real = any(isinstance(lift(x), SReal) for g, x in some)
    if any(number(x, real) is None for g, x in some): return None
    return z3.simplify(Or(*none)) if none else FALSE, number(SUnion(some) if len(some) > 1 else some[0][1], real)


def first_or_better(I, env, loop, s, i, gi, facts, decls, states, k, leave):
    """state x, None at first, with  x' = e(i) when g(i) and x is None or e(i) is better; and states that change exactly when x does"""
    ctx = I.ctx
    init, sval, post = states[k]
    if init is not None or not isinstance(sval, SUnion): return False
    pre, after = optional(sval), optional(post)
    if pre is None or after is None or pre[1] is None or after[1] is None: return False
    N, x, pN, p = pre[0], pre[1].t, after[0], after[1].t
    if x.sort() != p.sort() or not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1): return False
    atoms = apps(N)
    if len(atoms) != 1 or x.eq(atoms[0]): return False
    a = atoms[0]
    # the value of the state's kind that says None
    for absent in (z3.BoolVal(True), z3.BoolVal(False)) if z3.is_bool(a) else [z3.IntVal(v) for v in range(4)] if z3.is_int(a) else ():
        if is_true(z3.simplify(z3.substitute(N, (a, absent)))): break
    else: return False
    start = lambda t: z3.simplify(z3.substitute(t, (a, absent)))
    g = z3.simplify(And(gi, Not(start(pN))))
    ctx.solver.push()
    try:
        ctx.solver.add(i >= 0, i < s.n, a == absent, T(g), *facts)
        e = settle(ctx, start(p))
    finally: ctx.solver.pop()
    if mentions(e, decls) or mentions(g, decls): return False
    for sign in (1, -1):
        better = (lambda u, v: u > v) if sign > 0 else (lambda u, v: u < v)
        cond = And(g, Or(N, better(e, x)))
        ctx.solver.push()
        ctx.solver.set('timeout', 3000)
        try:
            ctx.solver.add(i >= 0, i < s.n, *facts)
            ok = (ctx.check(gi, cond, Not(And(Not(pN), p == e))) == z3.unsat and
                  ctx.check(gi, Not(cond), Not(And(pN == N, Or(N, p == x)))) == z3.unsat)
        finally:
            ctx.solver.pop()
            ctx.solver.set('timeout', ctx.TIMEOUT)
        if ok: break
    else: return False
    comp = {}
    for k2, (init2, sval2, post2) in states.items():
        if k2 == k: continue
        ctx.solver.push()
        ctx.solver.set('timeout', 3000)
        try:
            ctx.solver.add(i >= 0, i < s.n, *facts)
            ctx.solver.push()
            ctx.solver.add(T(g), a == absent)
            v = prune(ctx, subst(post2, [(a, absent)]), x, None)
            ctx.solver.pop()
            if v is None: continue
            out = set()
            collect_decls(v, out)
            if out & decls: continue
            same, kept = safe_eq(post2, v, None), safe_eq(post2, sval2, None)
            if same is None or kept is None: continue
            if ctx.check(gi, cond, Not(same)) == z3.unsat and ctx.check(gi, Not(cond), Not(kept)) == z3.unsat: comp[k2] = v
        finally:
            ctx.solver.pop()
            ctx.solver.set('timeout', ctx.TIMEOUT)
    at = lambda t, w: z3.substitute(T(t), (i, w))
    lastN, last = at(N, s.n), z3.substitute(x, (i, s.n))
    some = ctx.exists(i, s.n, g, facts)
    if ctx.choose([some, Not(some)]) == 0:
        w = ctx.fresh(z3.IntSort(), 'best')
        ctx.assume(And(w >= 0, w < s.n, at(g, w), Not(lastN), last == z3.substitute(e, (i, w))))
        for f in facts: ctx.assume(z3.substitute(f, (i, w)))
        ctx.assume(Not(ctx.exists(i, s.n, And(g, better(e, last)), facts)))
        ctx.witness(w, i, s.n, And(g, e == last))
        for k2, v in comp.items(): leave(k2, subst(v, [(i, w)]))
    else:
        ctx.assume(lastN)
        for k2 in comp: leave(k2, states[k2][0])
    return True


def apps(t):
    """the uninterpreted symbols applied to something in a term, as terms"""
    out, todo, seen = [], [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args(): out.append(y)
        todo.extend(y.children())
    return out


def probe(d, q):
    """what the dict holds under a key: None when nothing"""
    has, val = dict_at(d, q)
    return ite(has, val, None)


def collect_decls(v, out):
    if isinstance(v, (SBool, SInt, SReal, SStr, SSet, SRec, SOpaque)): term_decls(v.t, out)
    elif isinstance(v, SUnion):
        for g, x in v.alts:
            term_decls(g, out)
            collect_decls(x, out)
    elif type(v) is tuple:
        for x in v: collect_decls(x, out)
    elif isinstance(v, HObj):
        for x in v.fields.values(): collect_decls(x, out)
    elif isinstance(v, HDict):
        for p, x in v.ent.values():
            term_decls(T(p), out)
            collect_decls(x, out)
    elif isinstance(v, (HList, STuple)):
        for q in v.seq.segs:
            if isinstance(q, FMap):
                term_decls(q.n, out)
                collect_decls(q.elem, out)


def term_decls(t, out):
    """uninterpreted symbols applied to the loop index in a term of the generic state"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.add(x.decl().name())
        todo.extend(x.children())


def mentions(t, decls):
    out = set()
    term_decls(t, out)
    return bool(out & decls)


def to_real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def number(v, real):
    """a number, or a choice of numbers, as one term"""
    if isinstance(v, SUnion):
        alts = [(g, number(x, real)) for g, x in v.alts]
        if any(x is None for g, x in alts): return None
        r = alts[-1][1].t
        for g, x in reversed(alts[:-1]): r = If(T(g), x.t, r)
        return SReal(r) if real else SInt(r)
    v = lift(v)
    if isinstance(v, SInt): return SReal(z3.ToReal(v.t)) if real else v
    if isinstance(v, SReal): return v if real else None
    return None


def running(ctx, i, n, gi, facts, decls, sval, post, sign):
    """(g, e) such that every iteration sets x to e exactly when g and e is better than x"""
    if not isinstance(sval, (SInt, SReal)): return None
    post = number(post, isinstance(sval, SReal))
    if post is None: return None
    x = sval.t
    if not (z3.is_app(x) and x.num_args() == 1): return None
    if x.sort() == post.t.sort(): p = post.t
    else: return None
    BIG = 10 ** 12
    bad = z3.IntVal(-sign * BIG) if z3.is_int(x) else z3.RealVal(-sign * BIG)
    e = z3.simplify(z3.substitute(p, (x, bad)))
    if e.eq(z3.simplify(bad)) or mentions(e, decls): return None
    g = z3.simplify(And(gi, e != bad))
    cond = e > x if sign > 0 else e < x
    ctx.solver.push()
    ctx.solver.set('timeout', 3000)
    try:
        ctx.solver.add(i >= 0, i < n, x > bad if sign > 0 else x < bad, *facts)
        ok = ctx.check(If(gi, p, x) != If(And(g, cond), e, x)) == z3.unsat
    finally:
        ctx.solver.pop()
        ctx.solver.set('timeout', ctx.TIMEOUT)
    return (g, e) if ok else None


def companion(ctx, i, n, gi, facts, decls, sval, p, g, e, sval2, post2, better):
    """v such that every iteration sets y to v exactly when it improves x"""
    x = sval.t
    cond = And(g, better(e, x))
    ctx.solver.push()
    ctx.solver.set('timeout', 3000)
    try:
        ctx.solver.add(i >= 0, i < n, *facts)
        # the value taken when x improves: the alternatives possible then
        ctx.solver.push()
        ctx.solver.add(T(cond))
        bad = z3.IntVal(-10 ** 12) if z3.is_int(x) else z3.RealVal(-10 ** 12)
        if is_true(z3.simplify(better(z3.IntVal(0), z3.IntVal(1)))): bad = z3.simplify(-bad)
        v = subst(post2, [(x, bad)])
        v = prune(ctx, v, x, bad)
        ok = v is not None
        ctx.solver.pop()
        if not ok: return None
        out = set()
        collect_decls(v, out)
        if out & decls: return None
        same = safe_eq(post2, v, None)
        kept = safe_eq(post2, sval2, None)
        if same is None or kept is None: return None
        if ctx.check(cond, Not(same)) != z3.unsat: return None
        if ctx.check(gi, Not(cond), Not(kept)) != z3.unsat: return None
        return v
    finally:
        ctx.solver.pop()
        ctx.solver.set('timeout', ctx.TIMEOUT)


def prune(ctx, v, x, bad):
    """drop the alternatives that are impossible under the current assumptions (guards read with x replaced)"""
    if isinstance(v, SUnion):
        alts = [(g, prune(ctx, y, x, bad)) for g, y in v.alts if not is_false(z3.simplify(T(g))) and ctx.check(T(g)) != z3.unsat]
        if not alts: return None
        if len(alts) == 1: return alts[0][1]
        return SUnion(alts)
    if type(v) is tuple: return tuple(prune(ctx, y, x, bad) for y in v)
    if isinstance(v, (SBool, SInt, SReal, SStr, SSet, SOpaque)): 
        t = settle(ctx, v.t)
        return SOpaque(t, v.tag) if isinstance(v, SOpaque) else type(v)(t)
    if isinstance(v, SRec): return SRec(v.rel, settle(ctx, v.t), v.nullable)
    return v


def settle(ctx, t):
    """the term with the choices the current assumptions decide"""
    t = z3.simplify(t)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c = t.arg(0)
        if ctx.check(Not(c)) == z3.unsat: t = t.arg(1)
        elif ctx.check(c) == z3.unsat: t = t.arg(2)
        else: return z3.If(c, settle(ctx, t.arg(1)), settle(ctx, t.arg(2)))
    return t


def TRUE_VAR(ctx):
    ctx._abn = ctx.fresh_const(z3.BoolSort(), 'abnormal')
    return ctx._abn


def FALSE_VAR(ctx):
    return Not(ctx._abn)


def reg_all(ctx, v):
    """the substituted copy of a generic state is a proper object of the continuing path"""
    if isinstance(v, HObj):
        if v.ref is not None: return
        ctx.reg(v)
        for x in v.fields.values(): reg_all(ctx, x)
    elif isinstance(v, (HList, HDict, HSet)):
        ctx.reg(v)


def view(o, st):
    """a detached object with the given state"""
    if isinstance(o, HObj): return HObj(o.cls, dict(st))
    if isinstance(o, HList): return HList(st)
    if isinstance(o, HSet): return HSet(st)
    return HDict(st[0], st[1], st[2], o.keysort)


def drop_first(paths, rng):
    for p in paths:
        out, done = [], False
        for c in p.conds:
            if not done and (c is rng or c.eq(T(rng))):
                done = True
                continue
            out.append(c)
        p.conds = out


def extra_items(segs, i, e):
    out = []
    for g in segs:
        if not isinstance(g, GU): raise Unsupported('sequence appended on abnormal exit')
        out.append(GU(z3.substitute(T(g.g), (i, e)), subst(g.v, [(i, e)])))
    return out


def append_segs(pitems, i, upto, gi, facts, s):
    """segments appended over all iterations 0..upto"""
    m = max((len(x) for p, x in pitems), default=0)
    if m == 0: return []
    if any(not isinstance(g, GU) for p, x in pitems for g in x): raise Unsupported('a sequence appended per iteration')
    if m > 1: raise Unsupported('several items appended per iteration')
    with_item = [(p, x[0]) for p, x in pitems if x]
    without = [p for p, x in pitems if not x]
    if without or any(not is_true(T(g.g)) for p, g in with_item):
        guard = And(gi, Or(*[And(p.cond(), g.g) for p, g in with_item]))
    else: guard = gi
    elem = merge_vals([(p.cond(), g.v) for p, g in with_item])
    return [FMap(i, upto, z3.simplify(T(guard)), elem, facts, s.origin)]


# ---------------------------------------------------------------- relational induction between two loops

def unify(ctx, loops_a, loops_b, objeq=None):
    """find equalities between the states of loops of two programs that hold at every iteration; assume them.
    Returns the number of equalities established."""
    total = 0
    for A in loops_a:
        for B in loops_b:
            if A is B: continue
            total += unify_pair(ctx, A, B, objeq)
    return total


def safe_eq(a, b, objeq):
    """equality of content; abstract objects: the same object"""
    def same(x, y):
        if isinstance(x, HObj) and isinstance(y, HObj) and x.ref is not None and x.ref == y.ref:
            return x.fields['_lazy__token'].t == y.fields['_lazy__token'].t
        return objeq(x, y) if objeq is not None else None
    try:
        return eq(a, b, same)
    except NotComparable:
        return None


def eq_parts(a, b, objeq):
    """the equality of two property sets or finite dicts, category by category"""
    from utg import words
    a = a.fields['_data'] if isinstance(a, HObj) and a.cls is words.Properties else a
    b = b.fields['_data'] if isinstance(b, HObj) and b.cls is words.Properties else b
    if not (isinstance(a, HDict) and isinstance(b, HDict) and a.is_fin() and b.is_fin()): return None
    out = {}
    for k in list(a.ent) + [k for k in b.ent if k not in a.ent]:
        pa, va = a.ent.get(k, (FALSE, None))
        pb, vb = b.ent.get(k, (FALSE, None))
        try: e = eq(va, vb, objeq)
        except NotComparable: return None
        out[k] = And(T(pa) == T(pb), Implies(And(pa, pb), e))
    return out


def unify_pair(ctx, A, B, objeq):
    if not A.state or not B.state: return 0
    if not ctx.entails(A.seg.n == B.seg.n): return 0
    i = A.var
    pb = [(B.var, i)]
    ctx.solver.push()
    try:
        ctx.solver.add(i >= 0, i < A.seg.n)
        for f in A.facts: ctx.solver.add(f)
        for f in B.facts: ctx.solver.add(z3.substitute(f, *pb))
        for b, n2, body2, f2 in ctx.exs: ctx.solver.add(ctx.instance(b, n2, body2, i))
        ga, gb = A.seg.guard_at(i), B.seg.guard_at(i)
        # (the loops may run over different sequences: what matters is that each step keeps the states equal;
        # an element the sequence leaves out changes nothing)
        both = ctx.entails(T(ga) == T(gb))
        ctx.solver.add(T(ga) if both else Or(T(ga), T(gb)))

        def step(pp, ps, sp):
            return pp if both else And(Implies(And(ga, gb), pp), Implies(And(ga, Not(gb)), ps), Implies(And(Not(ga), gb), sp))
        cands = []
        for ka, (ia, sa, pa) in A.state.items():
            for kb, (ib, sb, pbv) in B.state.items():
                e0 = safe_eq(ia, ib, objeq)
                es = safe_eq(sa, subst(sb, pb), objeq)
                ep = safe_eq(pa, subst(pbv, pb), objeq)
                if e0 is None or es is None or ep is None: continue
                if is_false(z3.simplify(es)) or not ctx.entails(e0): continue
                ca, cp = eq_parts(sa, subst(sb, pb), objeq), eq_parts(pa, subst(pbv, pb), objeq)
                cps, csp = (cp, cp) if both else (eq_parts(pa, subst(sb, pb), objeq), eq_parts(sa, subst(pbv, pb), objeq))
                if None not in (ca, cp, cps, csp) and len(ca) > 1 and set(ca) == set(cp) == set(cps) == set(csp):
                    for k in sorted(ca, key=str): cands.append((ca[k], step(cp[k], cps[k], csp[k]), ka, kb))
                else:
                    eps, esp = (ep, ep) if both else (safe_eq(pa, subst(sb, pb), objeq), safe_eq(sa, subst(pbv, pb), objeq))
                    if eps is None or esp is None: continue
                    cands.append((es, step(ep, eps, esp), ka, kb))
        while cands:
            ctx.solver.push()
            for es, ep, ka, kb in cands: ctx.solver.add(es)
            keep = [c for c in cands if ctx.entails(c[1])]
            ctx.solver.pop()
            if len(keep) == len(cands): break
            cands = keep
    finally:
        ctx.solver.pop()
    for es, ep, ka, kb in cands:
        rng = And(i >= 0, i <= A.seg.n)
        ctx.assume(q_forall(i, Implies(rng, es)))
        ctx.assume(z3.substitute(es, (i, A.seg.n)))
        ctx.solver.add(z3.BoolVal(True))
    return len(cands)
