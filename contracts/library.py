# coding: utf-8
"""Contracts of the library's functions and the symbolic shapes of its objects."""
import importlib
import re
import os
import types

import z3

from pyvc.values import *
from pyvc.core import *
from pyvc.core import _counter
from pyvc.core import depends
from pyvc.interp import NOVAL, Interp, BuiltinMethod, StarSeq, func_node, REPLACE_ALL, REPLACE_FIRST
from pyvc import loops as L
from pyvc.loops import probe
from pyvc.verify import Goal, Builder

from spec import ref, goals as G
from oracle.base import Mismatch
from utg import relations as r
from utg import migrations
from utg import words, data, logic, transformators, templates, dictionary, lexicon, constructors, exceptions, utils

TYPES = list(r.WORD_TYPE.records)


# ---------------------------------------------------------------- intrinsics

def h_view(I, args, kwargs):
    """content of a property set"""
    p = I.resolve(args[0])
    if isinstance(p, HObj) and p.cls is words.Properties:
        d = p.fields.get('_data')
    elif isinstance(p, words.Properties):
        d = p._data
    else:
        raise Unsupported('view of %r' % (p,))
    out = I.ctx.reg(HDict())
    I.dict_update(out, d)
    return out


def merged_inline(fn):
    return lambda I, args, kwargs: I.merged(lambda: I.inline(fn, args, kwargs))


INTRINSIC = {ref.view: h_view, ref.as_properties: lambda I, args, kwargs: as_props(I, args[0])}
for f in (G.order, G.seen_well, ref.get, ref.default, ref.position, ref.plain_form, ref.form_text, ref.merge, ref.entry_view, ref.join, ref.distance):
    INTRINSIC[f] = merged_inline(f)


def target(*path):
    """function object behind module attribute path, or None when it no longer exists"""
    o = path[0]
    for name in path[1:]:
        if isinstance(o, type):
            for c in o.__mro__:
                if name in c.__dict__:
                    o = c.__dict__[name]
                    break
            else:
                return None
        else:
            o = getattr(o, name, None)
            if o is None: return None
        if isinstance(o, property): o = o.fget
        if isinstance(o, (classmethod, staticmethod)): o = o.__func__
    return o


CONTRACTS = {}
PROPERTIES = {}            # property -> generators of goals
LEVEL = {}
BOUNDED = {}
PROPERTY_ASSUMPTIONS = {}
ASSUMPTIONS = [
    'integers are mathematical (as in Python); floats occur only as ground values computed by CPython',
    'str.upper/lower/strip/split/replace, re.findall, % formatting and random.choice are trusted externals, see trusted_base for those used',
    'the arguments of a goal are distinct objects, except where its program makes them the same',
    'attributes are those of the declared classes; no monkey patching, no subclasses of the library classes',
    'module-level tables are those computed by CPython when the module is imported',
]


class Ground(object):
    """a closed statement over a finite domain, evaluated completely; fn returns the number of instances or raises Mismatch"""
    def __init__(self, name, fn, called=(), backend='evaluation'): self.name, self.fn, self.called, self.backend = name, fn, called, backend


def prop(pid):
    def deco(f):
        PROPERTIES.setdefault(pid, []).append(f)
        return f
    return deco


def contracts_goals(pid, *names):
    """the property consists of these contracts"""
    def gen():
        for n in names:
            for c in CONTRACTS.values():
                if c.name == n:
                    for g in c.make_goals(): yield g
    PROPERTIES.setdefault(pid, []).append(gen)


# ---------------------------------------------------------------- what a contract is established for

def every(v, ok):
    """v, whatever it is on this path, is ok"""
    if isinstance(v, SUnion): return all(every(x, ok) for g, x in v.alts)
    return ok(v)


def is_props(v):
    def ok(v):
        if type(v) is words.Properties: return True
        if not isinstance(v, HObj) or v.cls is not words.Properties: return False
        if v.ref is not None: return True
        d = v.fields.get('_data')
        if type(d) is dict: return all(getattr(x, '_relation', None) is k for k, x in d.items())
        return isinstance(d, HDict) and d.is_fin() and all(k in ref.RELS and every(x, lambda x, k=k: record_of(x, k)) for k, (p, x) in d.ent.items())
    return every(v, ok)


def record_of(v, rel): return isinstance(v, SRec) and v.rel is rel and not v.nullable or type(v).__name__ == 'Record' and getattr(v, '_relation', None) is rel


def is_entry(v):
    def ok(v):
        if v is None or is_props(v): return True
        return isinstance(v, SRec) and v.rel in ref.RELS or type(v).__name__ == 'Record' and getattr(v, '_relation', None) in ref.RELS
    return every(v, ok)


def is_entries(v):
    if isinstance(v, StarSeq): return all(is_entry(s.v if isinstance(s, GU) else s.elem) for s in v.seq.segs)
    return is_entry(v)


def is_text(v): return every(v, lambda v: isinstance(v, (str, SStr)))


def is_word(*allowed):
    def ok(v):
        if type(v) is words.Word: return v.type in allowed and len(v.forms) == ref.SIZE[v.type]
        if not isinstance(v, HObj) or v.cls is not words.Word: return False
        if v.ref is not None: return len(allowed) == len(TYPES)
        t, f = v.fields.get('type'), v.fields.get('forms')
        if t not in allowed or not is_props(v.fields.get('properties')): return False
        if type(f) is list: return len(f) == ref.SIZE[t]
        if not isinstance(f, HList): return False
        n = 0
        for s in f.seq.segs:
            if isinstance(s, FMap):
                k = z3.simplify(s.n)
                if not is_true(T(s.guard)) or not z3.is_int_value(k) or not is_text(s.elem): return False
                n += k.as_long()
            elif not is_true(T(s.g)) or not is_text(s.v): return False
            else: n += 1
        return n == ref.SIZE[t]
    return lambda v: every(v, ok)


def is_form(*allowed):
    good = is_word(*allowed)

    def ok(v):
        if type(v) is words.WordForm: return good(v.word)
        if not isinstance(v, HObj) or v.cls is not words.WordForm: return False
        if v.ref is not None: return len(allowed) == len(TYPES)
        return good(v.fields.get('word')) and is_props(v.fields.get('properties')) and is_props(v.fields.get('form_properties'))
    return lambda v: every(v, ok)


def is_relation(v): return isinstance(v, type) and v in ref.RELS
def is_schema(v): return any(v == t.schema for t in TYPES)
def is_number(v): return every(v, lambda v: type(v) is int or isinstance(v, SInt))


def is_dependency(v): return every(v, lambda v: is_text(v) or is_props(v))


def is_variable(v):
    def ok(v):
        if not isinstance(v, HObj) or v.cls is not templates.Substitution: return False
        if v.ref is not None: return True
        d = v.fields.get('dependencies')
        return is_text(v.fields.get('id')) and isinstance(d, HList) and all(is_dependency(s.v if isinstance(s, GU) else s.elem) for s in d.seq.segs)
    return every(v, ok)


def is_forms_by_name(v):
    """a dict from texts to word forms"""
    good = is_form(*TYPES)
    return isinstance(v, HDict) and all(type(k) is str and good(x) for k, (p, x) in v.ent.items()) and all(is_text(k) and every(x, lambda x: x is None or good(x)) for g, k, x in v.log) \
        and (v.base is None or good(getattr(v.base, 'val_t', None)))


def is_dictionary(v): return every(v, lambda v: isinstance(v, HObj) and v.cls is dictionary.Dictionary and is_forms_by_name(v.fields.get('_data')))


def anything(v): return True
def is_none(v): return v is None


class C(object):
    """contract: at call sites the function is replaced by `spec` (a function of the same arguments);
    domains: for each parameter of the specification, what its goals range over (several of them where the goals are apart);
    elsewhere, or when the call passes more than these parameters, the contract says nothing"""
    def __init__(self, name, path, spec, goals, wrap=None, effect=False, params=None, domains=()):
        self.name, self.path, self.spec, self.make_goals, self.wrap, self.effect = name, path, spec, goals, wrap, effect
        self.fn = target(*path)
        self.domains = [d if isinstance(d, tuple) else (d,) for d in (domains if isinstance(domains, list) else [domains])]
        self.owner = getattr(path[0], path[1], None)
        if params is None:
            code = spec.__code__
            params = code.co_varnames[:code.co_argcount]
        self.prefix = (self.owner,) if params[:1] == ('cls',) else ()
        self.params = [n for n in params if n != 'cls']
        if self.fn is not None: CONTRACTS[self.fn] = self

    def arguments(self, I, args, kwargs):
        """arguments of the specification, in its order; None when the call is outside of what the contract is established for"""
        if not isinstance(self.fn, types.FunctionType):
            return None if kwargs else (tuple(args), {})
        node = func_node(self.fn)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.kwarg or a.kwonlyargs and any(x.arg in kwargs for x in a.kwonlyargs): return None
        if a.vararg:
            if kwargs: return None
            if names[:1] == ['cls'] and args[:1] == (self.owner,): args = args[1:]
            return tuple(args), {}
        if any(isinstance(x, StarSeq) for x in args): return None
        b = I.bind(node, self.fn.__defaults__ or (), self.fn.__kwdefaults__ or {}, args, kwargs, self.name)
        passed = set(names[:len(args)]) | set(kwargs)
        if names[:1] == ['cls']:
            if b.pop('cls') is not self.owner: return None
            passed.discard('cls')
        order = self.params if all(n in b for n in self.params) else list(b)[:len(self.params)]
        if passed - set(order): return None
        return tuple(b[n] for n in order), {}

    def within(self, args):
        for d in self.domains:
            if len(args) > len(d) and d[-1:] != (is_entries,): continue
            ds = d + (is_entries,) * (len(args) - len(d))
            if all(ok(x) for ok, x in zip(ds, args)): return True
        return False

    def handler(self, I, args, kwargs):
        b = self.arguments(I, args, kwargs)
        if b is None or not self.within(b[0]): return NOVAL
        args, kwargs = self.prefix + b[0], b[1]
        if self.effect: return self.spec(I, args, kwargs)
        v = I.merged(lambda: I.call(self.spec, args, kwargs))
        return self.wrap(I, v) if self.wrap else v


def as_props(I, d):
    d = I.resolve(d)
    if isinstance(d, dict): d = I.ctx.reg(HDict({k: (z3.BoolVal(True), v) for k, v in d.items()}))
    if isinstance(d, HDict):
        d = I.ctx.reg(HDict(d.ent, d.base, d.log, d.keysort))
        return I.ctx.reg(HObj(words.Properties, {'_data': d}))
    return d


def install(I, goal, dropped=()):
    I.hooks.update(INTRINSIC)
    for fn, c in CONTRACTS.items():
        if c.name not in dropped: I.contracts[fn] = c.handler
    own = goal.fn if isinstance(goal.fn, (tuple, list, set)) else (goal.fn,)
    I.disabled = {f for f in own if f is not None}
    I.named = goal.named


# ---------------------------------------------------------------- shapes

def attributes(o):
    """the attributes an object has, memoized results aside"""
    names = set(getattr(o, '__dict__', {}))
    for c in type(o).__mro__:
        slots = c.__dict__.get('__slots__', ())
        names.update(x for x in ((slots,) if isinstance(slots, str) else slots) if hasattr(o, x))
    return {x: getattr(o, x) for x in names if not x.startswith('_lazy__')}


def sample_word(): return words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['a', 'b', 'c'], properties=words.Properties(r.NUMBER.PLURAL))


def sample_lexicon():
    x = lexicon.Lexicon()
    x.add_template('k', 't', frozenset((1,)))
    return x


def sample_template():
    x = templates.Template()
    x.parse('a [b|c]', ('c',))
    return x


SAMPLES = {
    words.Properties: (lambda: words.Properties(r.NUMBER.PLURAL), lambda a: a == {'_data': {r.NUMBER: r.NUMBER.PLURAL}} and type(a['_data']) is dict),
    words.Word: (sample_word, lambda a: a['forms'] == ['a', 'b', 'c'] and a['type'] is r.WORD_TYPE.PREPOSITION and a['properties'].get(r.NUMBER) is r.NUMBER.PLURAL),
    words.WordForm: (lambda: words.WordForm(sample_word()), lambda a: type(a['word']) is words.Word and type(a['properties']) is type(a['form_properties']) is words.Properties),
    dictionary.Dictionary: (lambda: dictionary.Dictionary([sample_word()]),
                            lambda a: type(a['_data']) is dict and sorted(a['_data']) == ['a', 'b', 'c'] and all(type(f) is words.WordForm for f in a['_data'].values())),
    lexicon.Lexicon: (sample_lexicon, lambda a: a == {'_data': {'k': [('t', frozenset((1,)))]}} and type(a['_data']) is dict),
    templates.Substitution: (lambda: templates.Substitution.parse('[B|c]', ('c',)), lambda a: a['id'] == 'b' and a['dependencies'][0] == 'c' and type(a['dependencies'][1]) is words.Properties),
    templates.Template: (sample_template, lambda a: a['template'] == 'a %s' and type(a['_substitutions']) is list and type(a['_substitutions'][0]) is templates.Substitution),
}


def guard_of(cls):
    def check(fields):
        make, good = SAMPLES[cls]
        try:
            a = attributes(make())
            ok = set(a) == {x for x in fields if not x.startswith('_lazy__')} and good(a)
        except Exception as e:
            ok = False
        if not ok: raise Unsupported('objects of %s do not have the attributes described here' % cls.__name__)
    return check


for cls_ in SAMPLES: Builder.guards[cls_] = guard_of(cls_)


def entry(b, n='e'):
    """None, any property value, or a property set"""
    return b.union(None, b.props(n), *[b.rec(p.relation, n) for p in r.PROPERTY_TYPE.records])


def entries(b, n='entries'):
    return b.list(b.length(), lambda g: entry(g), n, kind='tuple')


class Star(object):
    pass


def word(b, t, n='w', tok=False):
    """a well-formed word of type t"""
    return b.obj(words.Word, type=t, forms=b.strs(len(ref.KEYS[t]), n + '.forms', tok), properties=b.props(n))


# ---------------------------------------------------------------- contracts: property sets

def goals_build():
    def setup(b):
        return (StarSeq(entries(b).seq),), {}
    yield Goal('Properties(*entries) merges left to right', setup, G.c01_build, G.c01_build_spec, fn=words.Properties)


C('Properties()', (words, 'Properties'), ref.merge, goals_build, as_props, domains=(is_entries,))


def goals_clone():
    def setup(b):
        return (b.props('p'), StarSeq(entries(b).seq)), {}
    yield Goal('Properties.clone', setup, G.c01_clone, G.c01_clone_spec, fn=target(words, 'Properties', 'clone'))


C('Properties.clone', (words, 'Properties', 'clone'), ref.merge, goals_clone, as_props, domains=(is_props, is_entries))


def goals_get():
    for R in ref.RELS:
        yield Goal('Properties.get(%s)' % R.__name__, lambda b, R=R: ((b.props('p'), R), {}), G.c01_get, G.c01_get_spec, fn=target(words, 'Properties', 'get'))


C('Properties.get', (words, 'Properties', 'get'), G.c01_get_spec, goals_get, domains=(is_props, is_relation))


def goals_specified():
    for R in ref.RELS:
        yield Goal('Properties.is_specified(%s)' % R.__name__, lambda b, R=R: ((b.props('p'), R), {}), G.c01_specified, G.c01_specified_spec,
                   fn=target(words, 'Properties', 'is_specified'))


C('Properties.is_specified', (words, 'Properties', 'is_specified'), G.c01_specified_spec, goals_specified, domains=(is_props, is_relation))


def goals_key():
    for t in TYPES:
        yield Goal('Properties.get_raw_key of %s' % t.name, lambda b, t=t: ((b.props('p'), t.schema), {}), G.c01_key, G.c01_key_spec,
                   fn=target(words, 'Properties', 'get_raw_key'))


def goals_distance():
    yield Goal('Properties.manhattan_distance', lambda b: ((b.props('p'),), {}), G.distance, G.distance_spec, fn=target(words, 'Properties', 'manhattan_distance'))


C('Properties.manhattan_distance', (words, 'Properties', 'manhattan_distance'), G.distance_spec, goals_distance, domains=(is_props,))
C('Properties.get_raw_key', (words, 'Properties', 'get_raw_key'), G.c01_key_spec, goals_key, domains=(is_props, is_schema))


# ---------------------------------------------------------------- contracts: words

def per_type(name, lhs, rhs, path, args):
    def goals():
        for t in TYPES:
            yield Goal('%s (%s)' % (name, t.name), lambda b, t=t: (args(b, t), {}), lhs, rhs, fn=path if isinstance(path, list) else target(*path))
    return goals


C('Word._form', (words, 'Word', '_form'), G.c04_full_spec,
  per_type('Word._form', G.c04_full, G.c04_full_spec, (words, 'Word', '_form'), lambda b, t: (word(b, t), b.props('p'))), domains=(is_word(*TYPES), is_props))
C('Word.form', (words, 'Word', 'form'), G.c04_form_spec,
  per_type('Word.form', G.c04_form, G.c04_form_spec, (words, 'Word', 'form'), lambda b, t: (word(b, t), b.props('p'))), domains=(is_word(*TYPES), is_props))
C('Word.normal_form', (words, 'Word', 'normal_form'), G.c04_normal_spec,
  per_type('Word.normal_form', G.c04_normal, G.c04_normal_spec, (words, 'Word', 'normal_form'), lambda b, t: (word(b, t),)), domains=(is_word(*TYPES),))


# ---------------------------------------------------------------- contracts: word forms

def word_form(b, t, n='f'):
    w = word(b, t, n + '.word')
    return b.obj(words.WordForm, word=w, properties=b.props(n + '.p'), form_properties=b.props(n + '.fp'))


C('WordForm.get_form', (words, 'WordForm', 'get_form'), ref.contract_get_form,
  per_type('WordForm.get_form', G.form_text, G.form_text_spec, (words, 'WordForm', 'get_form'), lambda b, t: (word(b, t), b.props('p'))), domains=(is_word(*TYPES), is_props))
C('WordForm.form', (words, 'WordForm', 'form'), G.word_form_text_spec,
  per_type('WordForm.form', G.word_form_text, G.word_form_text_spec, (words, 'WordForm', 'form'), lambda b, t: (word_form(b, t),)), domains=(is_form(*TYPES),))
C('WordForm.starts_with_consonant_cluster', (words, 'WordForm', 'starts_with_consonant_cluster'), G.cluster_spec,
  per_type('WordForm.starts_with_consonant_cluster', G.cluster, G.cluster_spec, (words, 'WordForm', 'starts_with_consonant_cluster'), lambda b, t: (word_form(b, t),)), domains=(is_form(*TYPES),))
C('Word.number_of_syllables', (words, 'Word', 'number_of_syllables'), G.syllables_spec,
  per_type('Word.number_of_syllables', G.syllables, G.syllables_spec, (words, 'Word', 'number_of_syllables'), lambda b, t: (word(b, t),)), domains=(is_word(*TYPES),))
C('Word.has_fluent_vowel', (words, 'Word', 'has_fluent_vowel'), G.fluent_spec,
  per_type('Word.has_fluent_vowel', G.fluent, G.fluent_spec, (words, 'Word', 'has_fluent_vowel'), lambda b, t: (word(b, t),)), domains=(is_word(*TYPES),))

def getter(name): return [target(words, 'Word', name), target(words, 'Word', name, '__wrapped__')]


C('the number of syllables', (words, 'Word', 'number_of_syllables', '__wrapped__'), G.syllables_spec,
  per_type('the number of syllables', G.syllables, G.syllables_spec, getter('number_of_syllables'), lambda b, t: (word(b, t),)), domains=(is_word(*TYPES),))
C('the fluent vowel', (words, 'Word', 'has_fluent_vowel', '__wrapped__'), G.fluent_spec,
  per_type('the fluent vowel', G.fluent, G.fluent_spec, getter('has_fluent_vowel'), lambda b, t: (word(b, t),)), domains=(is_word(*TYPES),))

GETTERS = [target(words, 'WordForm', 'form'), target(words, 'WordForm', 'starts_with_consonant_cluster')]
W_GETTERS = [target(words, 'Word', 'number_of_syllables'), target(words, 'Word', 'has_fluent_vowel')]


# ---------------------------------------------------------------- contracts: numerals

def numeral_args(b):
    return (), {'properties': b.props('slave'), 'slave_word': None, 'master_form': None}


def numeral_goals(name, fn, spec, types):
    def goals():
        yield Goal(name, numeral_args, fn, spec, fn=fn)
        for t in types:
            yield Goal('%s of %s' % (name, t.name), lambda b, t=t: ((), {'properties': b.props('p'), 'slave_word': word(b, t, 'slave'), 'master_form': word_form(b, r.WORD_TYPE.INTEGER, 'master')}), fn, spec, fn=fn)
    return goals


def numeral_contract(name, spec, types):
    C(name, (transformators, name), spec, numeral_goals(name, target(transformators, name), spec, types), as_props,
      domains=[(is_props, is_none, is_none), (is_props, is_word(*types), is_form(r.WORD_TYPE.INTEGER))])


numeral_contract('_noun_integer', G.noun_with_numeral, (r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN))
numeral_contract('_adjective_integer', G.adjective_with_numeral, (r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.PARTICIPLE, r.WORD_TYPE.VERB))


# ---------------------------------------------------------------- contracts: numbers

def goals_number():
    yield Goal('_construct_integer', lambda b: ((b.int('n'),), {}), G.number_form, G.number_form_spec, fn=target(constructors, '_construct_integer'))


C('_construct_integer', (constructors, '_construct_integer'), G.number_built, goals_number, domains=(is_number,))


# ---------------------------------------------------------------- properties

T_ = r.WORD_TYPE
contracts_goals('C01', 'Properties()', 'Properties.clone', 'Properties.get', 'Properties.is_specified', 'Properties.get_raw_key')
contracts_goals('C04', 'Word.form', 'Word.normal_form')


def described():
    """the description of a position selects that position, and all positions are described"""
    n = 0
    for t in TYPES:
        w = words.Word(type=t, forms=['f%d' % i for i in range(ref.SIZE[t])])
        fs = list(w.all_forms())
        if len(fs) != ref.SIZE[t]: raise Mismatch('%s: %d forms are enumerated, %d positions' % (t.name, len(fs), ref.SIZE[t]))
        for i, f in enumerate(fs):
            n += 1
            if w.form(f.properties) != 'f%d' % i: raise Mismatch('%s: the description of form %d selects %s' % (t.name, i, w.form(f.properties)))
            if ref.view(f.properties) != ref.DESCRIPTION[t][i]: raise Mismatch('%s: description of form %d' % (t.name, i))
            if ref.position(t, ref.DESCRIPTION[t][i]) != i: raise Mismatch('%s: position of the description of form %d' % (t.name, i))
    return n


@prop('C04')
def c04():
    yield Ground('the description of a position selects that position', described)
    for t in TYPES:
        yield Goal('all forms of %s in order' % t.name, lambda b, t=t: ((b.obj(words.Word, type=t, forms=b.each(ref.SIZE[t]), properties=b.props('own')),), {}),
                   G.c04_all, G.c04_all_spec, fn=target(words, 'Word', 'all_forms'), unroll=500)
        yield Goal('%s has exactly its number of forms' % t.name, lambda b, t=t: ((t, b.strs(b.length())), {}), G.c04_built, G.c04_built_spec, exc_args=True)
        yield Goal('%s has exactly its number of forms, own properties' % t.name, lambda b, t=t: ((t, b.strs(b.length()), b.props('own')), {}), G.c04_built_own, G.c04_built_own_spec, exc_args=True)


def tables():
    n = 0
    for t in TYPES:
        keys = words.Word.get_keys(t)
        if words.Word.get_forms_number(t) != len(ref.KEYS[t]): raise Mismatch('%s: number of positions' % t.name)
        if len(keys) != len(ref.KEYS[t]) or set(keys) != set(ref.KEYS[t]): raise Mismatch('%s: allowed combinations' % t.name)
        cache = data.WORDS_CACHES[t]
        if len(set(keys)) != len(keys): raise Mismatch('%s: a combination occurs twice' % t.name)
        if dict(cache) != {k: i for i, k in enumerate(keys)}: raise Mismatch('%s: combinations and positions' % t.name)
        w = words.Word(type=t, forms=['f%d' % k for k in range(len(keys))])
        for i, k in enumerate(keys):
            n += 1
            got = w.form(words.Properties(*[x for x in k if x is not None]))
            full = tuple(ref.default(R) if x is None else x for R, x in zip(t.schema, k))
            if got not in ['f%d' % cache[ref.KEYS[t][j]] for j in ref.POSITIONS[t][full]]: raise Mismatch('%s: form of combination %d is %s' % (t.name, i, got))
        for full, ok in ref.POSITIONS[t].items():
            n += 1
            got = w.form(words.Properties(*full))
            at = {'f%d' % cache[ref.KEYS[t][j]] for j in ok}
            if got not in at: raise Mismatch('%s: choice %s resolves to %s, expected one of %s' % (t.name, full, got, sorted(at)))
    return n


@prop('C03')
def c03():
    yield Ground('combinations, positions and choices of values of every type', tables)


def defaults():
    for R in ref.RELS:
        p = words.Properties()
        if p.get(R) is not ref.default(R): raise Mismatch('default of %s is %s' % (R.__name__, p.get(R)))
        if p.is_specified(R): raise Mismatch('%s is specified in an empty property set' % R.__name__)
    return 2 * len(ref.RELS)


@prop('C01')
def c01():
    yield Ground('defaults', defaults)
    yield Goal('extending a built set leaves its sources alone', lambda b: ((b.props('p'), b.props('q'), entry(b)), {}), G.c01_extend, G.c01_extend_spec, fn=[words.Properties, target(words, 'Properties', 'clone')])


def agreement(slave_types, master_types, rhs, note='', named=()):
    for t in slave_types:
        for m in master_types:
            yield Goal('transform: %s depending on %s%s' % (t.name, m.name, note),
                       lambda b, t=t, m=m: ((word(b, t, 'slave'), b.props('p'), word_form(b, m, 'master')), {}), G.agreed, rhs, fn=target(transformators, 'transform'), named=named)


@prop('C10')
def c10(): return agreement([T_.NOUN, T_.PRONOUN], [T_.INTEGER], G.agreed_noun_spec)


@prop('C11')
def c11(): return agreement([T_.ADJECTIVE, T_.PARTICIPLE, T_.VERB], [T_.INTEGER], G.agreed_adjective_spec)


PHONETIC = {ref.normal_text: SStr, ref.word_form_text: SStr, ref.starts_with_cluster: SBool, ref.number_of_syllables: SInt, ref.has_fluent_vowel: SBool}


@prop('C12')
def c12():
    yield from agreement([T_.PREPOSITION], TYPES, G.agreed_spec, named=PHONETIC)
    for t in TYPES:
        if t is T_.PREPOSITION: continue
        for m in TYPES:
            if m is T_.INTEGER and t in (T_.NOUN, T_.PRONOUN, T_.ADJECTIVE, T_.PARTICIPLE, T_.VERB): continue
            yield from agreement([t], [m], G.agreed_spec, ' (no rule)')


@prop('C09')
def c09():
    m = constructors.__name__
    yield Goal('construct_integer after other numbers', lambda b: ((b.int('k'), b.int('m'), b.int('n')), {}), G.number_after, G.number_after_spec,
               globals_ok=[(m, k) for k in vars(constructors)], fn=target(constructors, 'construct_integer'))


@prop('C20')
def c20():
    for t in TYPES:
        yield Goal('text of a form of %s' % t.name, lambda b, t=t: ((word(b, t), b.props('p')), {}), G.form_text, G.form_text_spec, fn=target(words, 'WordForm', 'get_form'))
        yield Goal('constructed form of %s' % t.name, lambda b, t=t: ((word(b, t), b.props('p'), b.props('fp')), {}), G.built_form, G.built_form_spec, fn=GETTERS)
        yield Goal('constructed form of %s, default form properties' % t.name, lambda b, t=t: ((word(b, t), b.props('p'), None), {}), G.built_form, G.built_form_spec, fn=GETTERS)
        yield Goal('constructed form of %s, own properties' % t.name, lambda b, t=t: ((word(b, t), None, None), {}), G.built_form, G.built_form_spec, fn=GETTERS)
        yield Goal('form of %s read again' % t.name, lambda b, t=t: ((word_form(b, t),), {}), G.form_again, G.form_again_spec, fn=GETTERS)
        yield Goal('form of %s read after its cluster' % t.name, lambda b, t=t: ((word_form(b, t),), {}), G.cluster_first, G.cluster_first_spec, fn=GETTERS)


contracts_goals('C21', 'Word.number_of_syllables', 'Word.has_fluent_vowel', 'WordForm.starts_with_consonant_cluster')


def of_forms(f, cls):
    """a function of the type and the texts of the forms of a word"""
    def named(I, args):
        w = I.resolve(args[0])
        forms = I.resolve(w.fields['forms'])
        if not isinstance(forms, HList): return None
        key, K = [f, w.fields['type']], z3.Int('ex!at')
        for s in forms.seq.segs:
            terms = [s.n, T(s.guard_at(K)), s.at(K)] if isinstance(s, FMap) else [T(s.g), s.v]
            for x in terms: key.append(z3.simplify(x if isinstance(x, z3.ExprRef) else lift(x).t))
        if any(isinstance(x, z3.ExprRef) and depends(x, I.ctx.ivars) for x in key): return None
        key = tuple(key)
        if key not in I.closed: I.closed[key] = cls(z3.Const('%s!%d' % (f.__name__, next(_counter)), {SInt: z3.IntSort, SBool: z3.BoolSort}[cls]()))
        return I.closed[key]
    return named


@prop('C21')
def c21():
    for t in TYPES:
        yield Goal('phonetics of %s read before and after autofill' % t.name, lambda b, t=t: ((fillable(b, t),), {}), G.phonetics_after_autofill, G.phonetics_after_autofill_spec, modifies=changes_forms,
                   fn=W_GETTERS, named={f: of_forms(f, c) for f, c in ((ref.number_of_syllables, SInt), (ref.has_fluent_vowel, SBool))}, closed=True)
        yield Goal('phonetics of %s read again' % t.name, lambda b, t=t: ((word(b, t),), {}), G.phonetics_again, G.phonetics_again_spec, fn=W_GETTERS)
        yield Goal('cluster of %s read again' % t.name, lambda b, t=t: ((word_form(b, t),), {}), G.cluster_first, G.cluster_first_spec, fn=GETTERS)


@prop('C18')
def c18():
    two = lambda b: ((b.props('p'), b.props('q')), {})
    eqp = [target(words, 'Properties', n) for n in ('__eq__', '__ne__', '__hash__')]
    yield Goal('property sets are equal exactly by content', two, G.equal, G.equal_properties_spec, fn=eqp)
    yield Goal('equal property sets hash alike', two, G.hash_agrees, G.hash_agrees_spec, fn=eqp)
    yield Goal('a property set equals no other object', lambda b: ((b.props('p'), b.union(None, b.int('x'), b.str('s'))), {}), G.foreign, G.foreign_spec, fn=eqp)
    for t in TYPES:
        for u in [t] + [x for x in TYPES if x is not t][:2]:
            words2 = lambda b, t=t, u=u: ((word(b, t, 'v'), word(b, u, 'w')), {})
            forms2 = lambda b, t=t, u=u: ((word_form(b, t, 'f'), word_form(b, u, 'g')), {})
            yield Goal('words are equal exactly by content (%s, %s)' % (t.name, u.name), words2, G.equal, G.equal_words_spec)
            yield Goal('word forms are equal exactly by content (%s, %s)' % (t.name, u.name), forms2, G.equal, G.equal_forms_spec)
            if t is u:
                yield Goal('equal words hash alike (%s)' % t.name, words2, G.hash_agrees, G.hash_agrees_spec)
                yield Goal('equal word forms hash alike (%s)' % t.name, forms2, G.hash_agrees, G.hash_agrees_spec)
        yield Goal('hash of a word is stable (%s)' % t.name, lambda b, t=t: ((word(b, t, 'v'),), {}), G.hash_stable, G.hash_stable_spec)
        yield Goal('hash of a word form is stable (%s)' % t.name, lambda b, t=t: ((word_form(b, t, 'v'),), {}), G.hash_stable_form, G.hash_stable_spec)


# ---------------------------------------------------------------- migrations

def migration(n):
    d = os.path.dirname(migrations.__file__)
    for f in sorted(os.listdir(d)):
        if f.startswith('m_%04d' % n) and f.endswith('.py'): return importlib.import_module('utg.migrations.' + f[:-3])
    raise Unsupported('migration %d not found' % n)


def stored_word(b, code, n, **more):
    """serialized word: type number, n forms, arbitrary properties"""
    f = b.strs(n)
    d = {'type': code, 'forms': f, 'properties': b.strdict('properties')}
    d.update(more)
    return b.dict(d)


@prop('C17')
def c17():
    for k in (7, 8, 9):
        m = migration(k)
        for t in TYPES:
            old, new = m.OLD_CACHES[t], m.NEW_CACHES[t]
            yield Goal('%s carries %s' % (m.__name__.split('.')[-1], t.name),
                       lambda b, m=m, t=t, old=old, new=new: ((m.migrate, stored_word(b, t.value, max(old.values()) + 1), ref.carried(old, new)), {}),
                       G.migrated, G.migrated_spec, modifies=lambda args: [args[1]], fn=m.migrate)
    m = migration(1)
    for t, old in ((T_.ADJECTIVE, m.OLD_ADJECTIVE_CACHE), (T_.PARTICIPLE, m.OLD_PARTICIPLE_CACHE)):
        yield Goal('%s carries %s' % (m.__name__.split('.')[-1], t.name),
                   lambda b, m=m, t=t, old=old: ((m.migrate, stored_word(b, t.value, max(old.values()) + 1), ref.carried_first(old, data.WORDS_CACHES[t])), {}),
                   G.migrated, G.migrated_spec, modifies=lambda args: [args[1]], fn=m.migrate)
    changed = lambda args: [args[1], args[1].ent['forms'][1], args[1].ent['properties'][1]]

    def other(b, *codes):
        n = b.int('type')
        b.require(And(*[n.t != c for c in codes]))
        return n
    for k, codes in ((1, (1, 4)), (2, (0,)), (4, (10,)), (5, (4,))):
        m = migration(k)
        yield Goal('%s leaves other words alone' % m.__name__.split('.')[-1],
                   lambda b, m=m, codes=codes: ((m.migrate, stored_word(b, other(b, *codes), b.length())), {}), G.migrated_apart, G.unconcerned_spec, fn=m.migrate)
    m = migration(2)
    for patched in (True, False):
        yield Goal('%s adds the countable forms (%s)' % (m.__name__.split('.')[-1], 'patch' if patched else 'no patch'),
                   lambda b, m=m, patched=patched: ((m.migrate, stored_word(b, 0, 12, patches=b.dict({7: b.dict({'forms': b.strs(6, 'patch')})} if patched else {}))), {}),
                   G.migrated_apart, G.countable_spec, modifies=changed, fn=m.migrate)
    m = migration(4)
    yield Goal('%s repeats the last form' % m.__name__.split('.')[-1], lambda b, m=m: ((m.migrate, stored_word(b, 10, 2)), {}),
               G.migrated_apart, G.preposition_form_spec, modifies=changed, fn=m.migrate)
    m = migration(5)
    yield Goal('%s drops the tense' % m.__name__.split('.')[-1], lambda b, m=m: ((m.migrate, stored_word(b, 4, b.length())), {}),
               G.migrated_apart, G.participle_time_spec, modifies=changed, fn=m.migrate)


def layouts():
    """each layout is the next one's old layout, and the last is the library's"""
    ms = [migration(k) for k in (7, 8, 9)]
    n = 0
    for t in TYPES:
        for m in ms:
            n += 1
            if sorted(m.NEW_CACHES[t].values()) != list(range(len(m.NEW_CACHES[t]))): raise Mismatch('%s: new layout of %s is not numbered 0..n-1' % (m.__name__, t.name))
        for a, b in zip(ms, ms[1:]):
            at = {i: k for k, i in a.NEW_CACHES[t].items()}
            for key, i in b.OLD_CACHES[t].items():
                n += 1
                if i not in at or not ref.extends(key, at[i]):
                    raise Mismatch('%s takes position %d of %s for %s, %s left %s there' % (b.__name__, i, t.name, key, a.__name__, at.get(i)))
        n += 1
        if dict(ms[-1].NEW_CACHES[t]) != dict(data.WORDS_CACHES[t]): raise Mismatch('layout of %s after the last migration' % t.name)
    return n


prop('C17')(lambda: [Ground('layouts of consecutive migrations', layouts)])


def enumerations():
    """each layout numbers its combinations in the order in which they are enumerated"""
    n = 0
    for m in [migration(k) for k in (1, 7, 8, 9)]:
        for name, t, table in ref.layouts_of(m):
            n += len(table)
            if not ref.enumerated(table): raise Mismatch('%s: %s of %s is not in the order of enumeration' % (m.__name__, name, t))
    return n


prop('C17')(lambda: [Ground('layouts are enumerations', enumerations)])


# ---------------------------------------------------------------- nearest description

def description(b, t, n='key'):
    return tuple(b.rec(R, '%s.%d' % (n, j), nullable=True) for j, R in enumerate(t.schema))


contracts_goals('C05', 'get_nearest_key')


def of_schema(x, t): return type(x) is tuple and len(x) == len(t.schema) and all(y is None or getattr(y, '_relation', None) is R for y, R in zip(x, t.schema))


def nearest_of(I, args, kwargs):
    """what the nearest of some descriptions of a table is: none of none, otherwise one of them, a function of the key and of the collection"""
    key, available = args
    if not isinstance(key, STable): return NOVAL
    available = I.resolve(available)
    q = available.seq if isinstance(available, (HList, STuple)) else None
    if not isinstance(key, STable) or q is None or len(q.segs) != 1 or not isinstance(q.segs[0], FMap) or not isinstance(q.segs[0].elem, STable): return NOVAL
    s, K = q.segs[0], z3.Int('ex!at')
    if not any(all(of_schema(x, t) for x in key.table) and all(of_schema(x, t) for x in s.elem.table) for t in TYPES): return NOVAL
    content = [z3.simplify(x) for x in (s.n, T(s.guard_at(K)), s.at(K).t)]
    if any(depends(x, I.ctx.ivars) for x in content): return NOVAL
    if not I.ctx.branch(I.nonempty(q)): return None
    for tables, c, F in I.nearests:
        if tables == (key.table, s.elem.table) and all(x.eq(y) for x, y in zip(c, content)): break
    else:
        F = z3.Function('nearest!%d' % next(_counter), z3.IntSort(), z3.IntSort())
        I.nearests.append(((key.table, s.elem.table), content, F))
    e = F(key.t)
    I.ctx.assume(And(e >= 0, e < s.n, s.guard_at(e), *s.facts_at(e)))
    return s.at(e)


def goals_nearest():
    for t in TYPES:
        yield Goal('nearest of any collection of descriptions of %s' % t.name, lambda b, t=t: ((description(b, t), b.list(b.length(), lambda g: description(g, t, 'a'))), {}),
                   G.nearest, G.nearest_spec, fn=logic.get_nearest_key, unroll=8)


C('get_nearest_key', (logic, 'get_nearest_key'), nearest_of, goals_nearest, effect=True, params=('key', 'available_keys'), domains=(anything, anything))


def changes_forms(args): return [args[0], args[0].fields['forms']] if isinstance(args[0], HObj) else [args[0]]


def fillable(b, t):
    if ref.SIZE[t] > 2: return word(b, t)
    return b.obj(words.Word, type=t, forms=b.each(ref.SIZE[t]), properties=b.props('own'))


def complete(b, t):
    """a word with every form"""
    w = fillable(b, t)
    for s in w.fields['forms'].seq.segs:
        if isinstance(s, FMap): s.facts += (s.elem.t != '',)
        else: b.require(s.v.t != '')
    return w


@prop('C06')
def c06():
    for t in TYPES:
        yield Goal('autofill of %s' % t.name, lambda b, t=t: ((fillable(b, t),), {}), G.autofilled, G.autofilled_spec, modifies=changes_forms)
        yield Goal('autofill of %s fills every form, or none was given' % t.name, lambda b, t=t: ((fillable(b, t),), {}), G.missed_after, G.missed_after_spec, modifies=changes_forms)
        yield Goal('autofill of %s with every form' % t.name, lambda b, t=t: ((complete(b, t),), {}), G.autofilled_forms, G.given_forms, modifies=changes_forms)
        yield Goal('autofill of %s with no form' % t.name, lambda b, t=t: ((b.obj(words.Word, type=t, forms=b.list(ref.SIZE[t], lambda g: ''), properties=b.props('own')),), {}), G.autofilled_forms, G.given_forms, modifies=changes_forms)


# ---------------------------------------------------------------- lexicon

def lexicon_of(b, tagged=False):
    """a lexicon with arbitrary content: any keys, any number of templates with any restrictions under each"""
    def content(g):
        s = g.set('needed')
        x = g.opaque('template')
        return ((x, s) if tagged else x, s)
    return b.obj(lexicon.Lexicon, _data=b.keyed('Key', lambda g: g.list(g.length(), content, 'stored')))


def changes_store(args): return [args[0].fields['_data']] + [args[0]] if isinstance(args[0], HObj) else [args[0]]


@prop('C08')
def c08():
    key = lambda b, n='q': b.opaque(n, 'Key')
    yield Goal('an empty lexicon knows nothing', lambda b: ((key(b),), {}), G.fresh_lexicon, G.fresh_lexicon_spec)
    yield Goal('adding appends under its key and nowhere else', lambda b: ((lexicon_of(b), key(b, 'k'), b.opaque('t'), b.set('needed'), key(b)), {}), G.added, G.added_spec, modifies=changes_store)
    yield Goal('adding without restrictions', lambda b: ((lexicon_of(b), key(b, 'k'), b.opaque('t'), key(b)), {}), G.added_free, G.added_free_spec, modifies=changes_store)
    yield Goal('has_key', lambda b: ((lexicon_of(b), key(b)), {}), G.known, G.known_spec)
    yield Goal('templates of a key', lambda b: ((lexicon_of(b), key(b), b.set('wanted')), {}), G.applicable, G.applicable_spec)
    yield Goal('a random template', lambda b: ((lexicon_of(b), key(b), b.set('wanted')), {}), G.random_one, G.random_spec, exc_args=True)
    yield Goal('a random template without restrictions', lambda b: ((lexicon_of(b), key(b)), {}), G.random_free, G.random_free_spec, exc_args=True)
    yield Goal('a random nearest template', lambda b: ((lexicon_of(b, True), key(b), b.set('wanted')), {}), G.nearest_one, G.nearest_one_spec, exc_args=True)
    yield Goal('a random nearest template without restrictions', lambda b: ((lexicon_of(b), key(b)), {}), G.nearest_free, G.random_free_spec, exc_args=True)


# ---------------------------------------------------------------- rendering

AGREE_FN = target(transformators, 'transform')


def goals_transform():
    for t in TYPES:
        for m in TYPES:
            yield Goal('transform: %s depending on %s' % (t.name, m.name), lambda b, t=t, m=m: ((word(b, t, 'slave'), b.props('p'), word_form(b, m, 'master')), {}), G.agreed, G.agreed_spec,
                       fn=AGREE_FN, named=PHONETIC)


C('transform', (transformators, 'transform'), G.transform_spec, goals_transform, as_props, domains=(is_word(*TYPES), is_props, is_form(*TYPES)))


def any_word(g, n='word'):
    """a word of any type; what agreement rules and form selection make of it is a function of its identity and of properties"""
    def make(g):
        t = g.rec(r.WORD_TYPE, 'type')
        n = z3.IntVal(ref.SIZE[TYPES[-1]])
        for k, x in enumerate(TYPES[:-1]): n = z3.If(t.t == r.WORD_TYPE.records.index(x), z3.IntVal(ref.SIZE[x]), n)
        return g.obj(words.Word, type=t, forms=g.strs(SInt(n), 'forms', True), properties=g.props('own'))
    return g.ref('word', make)


def any_form(g, n='form'):
    return g.ref('form', lambda g: g.obj(words.WordForm, word=any_word(g), properties=g.props('p'), form_properties=g.props('fp')))


def externals_of(b): return b.keyed('str', any_form, 'externals')


def dictionary_of(b): return b.obj(dictionary.Dictionary, _data=b.keyed('str', any_form, 'dictionary'))


def variable(b, n='s'):
    return b.obj(templates.Substitution, id=b.str(n + '.id'), dependencies=b.list(b.length(n + '.n'), lambda g: g.union(g.str('name'), g.props('fixed')), n + '.deps'), _lazy__token=b.opaque(n, 'Object'))


def template_of(b, n='t'):
    """a template with any number of variables"""
    return b.obj(templates.Template, template=b.str(n + '.text'), _substitutions=b.list(b.length(n + '.n'), lambda g: variable(g, n + '.s'), n + '.variables'))


RENDERING = {ref.agree: 'view', ref.form_text: SStr}
WHOLE = {ref.shown: (SStr, (exceptions.ExternalDependecyNotFoundError,))}
GET_TEXT = target(templates, 'Substitution', 'get_text')


def goals_get_text():
    yield Goal('Substitution.get_text', lambda b: ((variable(b), externals_of(b), dictionary_of(b)), {}), G.variable_text, G.variable_text_spec, fn=GET_TEXT, named=RENDERING, exc_args=True, closed=True)


C('Substitution.get_text', (templates, 'Substitution', 'get_text'), G.variable_text_spec, goals_get_text, domains=(is_variable, is_forms_by_name, is_dictionary))
contracts_goals('C15', 'Substitution.get_text')


def whole(b): return template_of(b), externals_of(b), dictionary_of(b)


@prop('C16')
def c16():
    yield Goal('a template renders to its text with the renderings of its variables', lambda b: (whole(b), {}), G.rendered, G.rendered_spec, named=WHOLE, closed=True)
    yield Goal('rendering again gives the same text', lambda b: (whole(b) + (template_of(b, 'u'), b.int('n'), b.str('q')), {}), G.rendered_again, G.rendered_again_spec, named=WHOLE, closed=True, globals_ok=[(constructors.__name__, k) for k in vars(constructors)])


# ---------------------------------------------------------------- texts cut into literals and variables

class SPieces(Sym):
    """an arbitrary text cut into literals, variables and a tail, see contracts/lemmas.py"""
    def __init__(self, I):
        k = next(_counter)
        S, Z = z3.StringSort(), z3.IntSort()
        self.text, self.tail = z3.Const('text!%d' % k, S), z3.Const('tail!%d' % k, S)
        self.literal, self.body, self.A, self.S = [z3.Function('%s!%d' % (x, k), Z, S) for x in ('literal', 'body', 'A', 'S')]
        self.n = z3.Const('variables!%d' % k, Z)
        E = self.doubled = lambda t: REPLACE_ALL(t, z3.StringVal('%'), z3.StringVal('%%'))
        # the definitions of A and S at the ends; the doubled text is S(0)
        I.ctx.assume(And(self.n >= 0, E(self.text) == self.S(0), self.A(0) == '', self.S(self.n) == E(self.tail)))

    def variable(self, i): return z3.Concat(z3.StringVal('['), self.body(i), z3.StringVal(']'))

    def so_far(self, i): return z3.Concat(self.A(i), self.S(i))

    def step(self, i):
        """lemma: putting %s for the first occurrence of variable i of the doubled text"""
        return REPLACE_FIRST(self.so_far(i), self.doubled(self.variable(i)), z3.StringVal('%s')) == self.so_far(i + 1)

    def variables(self, doubled):
        i = z3.Int('i!%d' % next(_counter))
        x = self.variable(i)
        return Seq([FMap(i, self.n, z3.BoolVal(True), SStr(self.doubled(x) if doubled else x), [self.step(i)] if doubled else [])])

    def invariant(self, I, env, loop):
        """a text that starts as the doubled text is, before iteration i, the first i variables replaced"""
        keys = [k for k, (init, at, post) in loop.state.items() if isinstance(init, SStr) and init.t.eq(self.doubled(self.text))]
        if not keys or not loop.seg.n.eq(self.n): return None
        inv = lambda get, i: And(*[lift(get(k)).t == self.so_far(i) if isinstance(lift(get(k)), SStr) else False for k in keys])
        inv.name = 'the first i variables are replaced'
        return inv


def pieces(b):
    p = SPieces(b.I)
    b.I.regex_hooks.append(lambda I, pattern, name, args, kwargs: find_variables(I, p, pattern, name, args, kwargs))
    b.ctx.inv_hooks.append(p.invariant)
    b.I.attr_hooks.append(match_attribute)
    return p


def match_attribute(I, o, name):
    if isinstance(o, HObj) and o.cls is ref.Match and name not in ('group', 'text', '__getitem__', '__class__'):
        raise Unsupported('%s of a match' % name)
    return NotImplemented


def find_variables(I, p, pattern, name, args, kwargs):
    if pattern.pattern != r'\[[^\]]+\]' or pattern.flags != re.UNICODE or kwargs: return None
    if name == 'sub' and len(args) == 2 and isinstance(args[1], SStr) and args[1].t.eq(p.doubled(p.text)):
        I.used_trusted.add('sub of the pattern of variables replaces the variables of the cut, left to right, by what is given or what the given function returns for them')
        if args[0] != '%s':
            if isinstance(args[0], (str, Sym)): return None
            found = I.call(ref.matches, (I.ctx.reg(HList(p.variables(True))),), {})
            if I.simp(I.resolve(I.call(ref.all_replaced_by, ('%s', args[0], found), {}))) is not True: return None
        return SStr(z3.Concat(p.A(p.n), p.doubled(p.tail)))
    if name == 'finditer' and len(args) == 1 and isinstance(args[0], SStr) and args[0].t.eq(p.doubled(p.text)):
        I.used_trusted.add('finditer of the pattern of variables finds the variables of the cut, left to right')
        return I.call(iter, (I.call(ref.matches, (I.ctx.reg(HList(p.variables(True))),), {}),), {})
    if name != 'findall' or len(args) != 1: return None
    I.used_trusted.add('findall of the pattern of variables finds the variables of the cut, left to right (contracts/lemmas.py)')
    for doubled, t in ((False, p.text), (True, p.doubled(p.text))):
        if args[0].t.eq(t): return I.ctx.reg(HList(p.variables(doubled)))


def h_filled(I, args, kwargs):
    """%s of the format of the cut replaced by the texts, doubled percent signs by single ones"""
    p, texts = args
    I.used_trusted.add('format % values, for a format of literals with doubled percent signs and %s between them, is the literals with the values between them')
    return SApp(z3.Const('format!%d' % next(_counter), z3.StringSort()), '%', (SStr(z3.Concat(p.A(p.n), p.doubled(p.tail))), I.call(tuple, (texts,), {})))


INTRINSIC[ref.text_of] = lambda I, args, kwargs: SStr(args[0].text)
INTRINSIC[ref.variables_of] = lambda I, args, kwargs: I.ctx.reg(HList(args[0].variables(False)))
INTRINSIC[ref.filled] = h_filled


def any_variable(g):
    return g.ref('variable', lambda g: g.obj(templates.Substitution, id=g.str('id'), dependencies=g.list(g.length(), lambda h: h.union(h.str('name'), h.props('fixed')), 'deps')))


def parsed(I, args):
    """what a variable means: a function of its text and of the known names, or one of the two errors"""
    text, names = I.resolve(args[0]), I.token(args[1])
    if not isinstance(text, SStr) or names is None: return None
    terms = [z3.simplify(text.t), names]
    sorts = [t.sort() for t in terms]
    code = z3.Function('not.parsed', *sorts, z3.IntSort())(*terms)
    for k, e in enumerate((exceptions.WrongDependencyFormatError, exceptions.UnknownVerboseIdError)):
        if I.ctx.branch(code == k): raise SymRaise(VExc(e, (), {}))
    any_variable(Builder(I.ctx, I))
    return instance(I.refs['variable'], z3.Function('parsed', *sorts, Token)(*terms))


def parse_contract(I, args, kwargs):
    if ref.parsed not in I.named: return NOVAL
    v = parsed(I, args)
    return NOVAL if v is None else v


C('Substitution.parse', (templates, 'Substitution', 'parse'), parse_contract, lambda: c14(), effect=True, params=('variable', 'externals'), domains=(is_text, is_forms_by_name))
READING = {ref.parsed: parsed, **WHOLE}


@prop('C13')
def c13():
    yield Goal('a text renders to itself with its variables filled in order', lambda b: ((pieces(b), externals_of(b), dictionary_of(b)), {}), G.read_and_rendered, G.read_and_rendered_spec, named=READING, closed=True)


def text_lemmas():
    from contracts import lemmas
    return lemmas.prove_all()


prop('C13')(lambda: [Ground('lemmas about texts and variables', text_lemmas, backend='z3')])


@prop('C19')
def c19():
    yield Goal('report of missing words', lambda b: (whole(b), {}), G.missing, G.missing_spec)
    yield Goal('an empty report means that no word is missed, a non-empty one that rendering fails', lambda b: (whole(b), {}), G.missing_and_rendering, G.missing_and_rendering_spec, named=WHOLE, closed=True)


# ---------------------------------------------------------------- dictionary

def goals_all_forms():
    for t in TYPES:
        yield Goal('all forms of %s in order' % t.name, lambda b, t=t: ((b.obj(words.Word, type=t, forms=b.each(ref.SIZE[t]), properties=b.props('own')),), {}),
                   G.c04_all, G.c04_all_spec, fn=target(words, 'Word', 'all_forms'), unroll=500)


C('Word.all_forms', (words, 'Word', 'all_forms'), G.forms_spec, goals_all_forms, domains=(is_word(*TYPES),))


def abstract_forms(I, args):
    """the forms of an abstract word, as abstract forms"""
    w = I.resolve(args[0])
    if not isinstance(w, HObj) or w.ref is None: return None
    any_form(Builder(I.ctx, I))
    f = z3.Function('form.of', Token, z3.IntSort(), Token)
    i = z3.Int('i!%d' % next(_counter))
    return STuple(Seq([FMap(i, w.fields['forms'].seq.segs[0].n, z3.BoolVal(True), instance(I.refs['form'], f(w.fields['_lazy__token'].t, i)))]))


NOBODY = z3.Const('nobody', Token)


def identity(v):
    """term for an abstract object or None; None when the value is something else"""
    if v is None: return NOBODY
    if isinstance(v, HObj) and v.ref is not None: return v.fields['_lazy__token'].t
    if isinstance(v, SUnion):
        out = NOBODY
        for g, x in v.alts:
            t = identity(x)
            if t is None: return None
            out = z3.If(T(g), t, out)
        return out
    return None


def some_form(I, has, token):
    any_form(Builder(I.ctx, I))
    return ite(has, instance(I.refs['form'], token), None)


def choice_of(I, best, word, text):
    """(a form is chosen, its identity): functions of what was chosen before, the word and the text"""
    b, w, q = identity(best), identity(word), lift(text).t
    if b is None or w is None: return None
    return [z3.Function('choice.' + n, Token, Token, z3.StringSort(), z)(b, w, q) for n, z in (('made', z3.BoolSort()), ('form', Token))]


def abstract_choice(I, args):
    c = choice_of(I, *args)
    return None if c is None else some_form(I, *c)


ABSTRACT = {ref.forms_of: abstract_forms, ref.word_form_text: SStr, ref.distance: SInt}
CHOICE = {ref.chosen_after: abstract_choice}


def goals_add_word():
    yield Goal('adding a word keeps the best form under every text', lambda b: ((dictionary_of(b), any_word(b), b.str('text')), {}), G.added_word, G.added_word_spec,
               named=ABSTRACT, closed=True, modifies=changes_store, fn=target(dictionary, 'Dictionary', 'add_word'))


def added(I, args, kwargs):
    """the effect of adding a word: under every text the form chosen among the one there and those of the word"""
    d, word = (I.resolve(x) for x in args)
    data = d.fields.get('_data') if isinstance(d, HObj) else None
    if ref.chosen_after not in I.named or not isinstance(data, HDict) or identity(word) is None: return NOVAL
    k = z3.Const('text!%d' % next(_counter), z3.StringSort())
    c = choice_of(I, probe(data, k), word, SStr(k))
    if c is None: return NOVAL
    any_form(Builder(I.ctx, I))
    data.keysort = z3.StringSort()
    I.ctx.set_state(data, I.ctx.state(HDict({}, Base(k, c[0], instance(I.refs['form'], c[1])))))
    return None


C('Dictionary.add_word', (dictionary, 'Dictionary', 'add_word'), added, goals_add_word, effect=True, params=('self', 'word'), domains=(is_dictionary, is_word(*TYPES)))


@prop('C07')
def c07():
    q = lambda b: b.str('text')
    yield Goal('an empty dictionary knows nothing', lambda b: ((q(b),), {}), G.fresh_dictionary, G.fresh_dictionary_spec)
    yield Goal('lookup', lambda b: ((dictionary_of(b), q(b)), {}), G.looked_up, G.looked_up_spec, exc_args=True)
    yield Goal('the words of a dictionary are those of the forms it answers', lambda b: ((dictionary_of(b), any_word(b), q(b)), {}), G.stored_words, G.stored_words_spec)
    yield Goal('a dictionary of any words', lambda b: ((b.list(b.length(), any_word), q(b)), {}), G.built_dictionary, G.built_dictionary_spec, named=CHOICE, closed=True)
    yield Goal('adding to any dictionary', lambda b: ((dictionary_of(b), any_word(b), q(b)), {}), G.extended_dictionary, G.extended_dictionary_spec, named=CHOICE, closed=True, modifies=changes_store)
    three = lambda b: ((any_form(b), any_form(b), any_form(b)), {})
    yield Goal('lemma: the preference is a strict weak order', three, G.preference, G.preference_spec, named=ABSTRACT, closed=True)
    yield Goal('lemma: the chosen form is the first of the best ones (induction step)',
               lambda b: ((b.union(None, any_form(b)), b.int('at'), any_form(b), b.int('at g'), any_form(b), b.int('at f'), q(b)), {}), G.choice_step, G.choice_step_spec, named={ref.better: SBool, ref.word_form_text: SStr}, closed=True)


# ---------------------------------------------------------------- parsing

def goals_property_names():
    yield Goal('Substitution.parse_properties', lambda b: ((b.str('text'),), {}), G.property_names, G.property_names_spec, fn=target(templates, 'Substitution', 'parse_properties'))


C('Substitution.parse_properties', (templates, 'Substitution', 'parse_properties'), G.property_names_spec, goals_property_names, as_props, domains=(is_text,))
NAMES = {ref.named_properties: ('view', (exceptions.UnknownVerboseIdError,))}


@prop('C14')
def c14():
    yield Goal('a variable means its word and its parts', lambda b: ((b.str('variable'), b.keyed('str', any_form, 'externals')), {}), G.parsed_variable, G.parsed_variable_spec,
               named=NAMES, closed=True)


def names():
    """every property name denotes exactly one property, and no other text is one"""
    n = 0
    records = [rec for R in ref.RELS for rec in R.records]
    if len({rec.verbose_id for rec in records}) != len(records): raise Mismatch('two properties have the same name')
    for rec in records:
        for text in (rec.verbose_id, ' %s ' % rec.verbose_id.upper()):
            n += 1
            s = templates.Substitution.parse('[x|%s]' % text, ())
            if [ref.view(d) for d in s.dependencies] != [{rec._relation: rec}]: raise Mismatch('%s denotes %s' % (text, [ref.view(d) for d in s.dependencies]))
    return n


prop('C14')(lambda: [Ground('names of properties', names)])


# ---------------------------------------------------------------- stored objects

def stored_properties(b, text):
    """stored property set: any number of any category numbers (or their decimal notations) with any value numbers"""
    key = lambda g: IntKey(g.int('code').t) if text else g.int('code')
    return b.mapping(b.length(), lambda g: (key(g), g.int('number')), 'stored')


@prop('C02')
def c02():
    yield Goal('property sets', lambda b: ((b.props('p'),), {}), G.restored, G.restored_spec)
    for text in (False, True):
        yield Goal('stored property sets with numbers that do not exist%s' % (' (JSON)' if text else ''), lambda b, text=text: ((stored_properties(b, text),), {}), G.restored_stale, G.restored_stale_spec)
    for t in TYPES:
        yield Goal('words (%s)' % t.name, lambda b, t=t: ((word(b, t),), {}), G.restored_word, G.restored_word_spec)
    yield Goal('variables', lambda b: ((variable(b),), {}), G.restored_variable, G.restored_variable_spec)
    yield Goal('templates', lambda b: ((template_of(b),), {}), G.restored_template, G.restored_template_spec)
