# coding: utf-8
"""One family of cases per property.  Every case builds its input from JSON-able parameters, runs the real code through its
public interface and compares with the specification functions of spec.ref."""
import ast
import copy
import importlib
import itertools
import json
import os
import random

from spec import ref
from .base import case, gen, fixed, need, same, Mismatch

import utg
from utg import relations as r
from utg import data, logic, words, dictionary, lexicon, templates, transformators, constructors, exceptions

IDS = sorted(ref.VERBOSE)
TYPE = {t.name: t for t in ref.TYPES}
TYPE_NAMES = [t.name for t in ref.TYPES]
FORMS_N = {t.name: len(ref.KEYS[t]) for t in ref.TYPES}


# ---------------------------------------------------------------- building inputs

def rec(i):
    return ref.VERBOSE[i]


def recs(ids):
    return [ref.VERBOSE[i] for i in ids]


def props(ids):
    return words.Properties(*recs(ids))


def pview(ids):
    out = {}
    for i in ids:
        out[rec(i)._relation] = rec(i)
    return out


def names(d):
    return sorted(v.verbose_id for v in d.values())


def same_view(p, d, what):
    v = ref.view(p)
    if v != d:
        raise Mismatch('%s: got %s, expected %s' % (what, names(v), names(d)))
    for R in ref.RELS:
        if p.get(R) != ref.get(d, R):
            raise Mismatch('%s: get(%s) gives %s, expected %s' % (what, R.__name__, p.get(R), ref.get(d, R)))


def forms_of(w):
    return list(w['forms']) if isinstance(w['forms'], list) else ['%s%d' % (w['forms'], k) for k in range(FORMS_N[w['t']])]


def word(w):
    return words.Word(type=TYPE[w['t']], forms=forms_of(w), properties=props(w['p']))


def word_form(f):
    """["int", n] | ["form", word, properties | None, form properties | None]"""
    if f[0] == 'int':
        return constructors.construct_integer(f[1])
    return words.WordForm(word(f[1]), properties=None if f[2] is None else props(f[2]), form_properties=None if f[3] is None else props(f[3]))


def snap(x):
    """deep content of an object"""
    if isinstance(x, words.Properties):
        return ('P', tuple(sorted((k.__name__, v.name) for k, v in ref.view(x).items())))
    if isinstance(x, words.Word):
        return ('W', x.type.name, tuple(x.forms), snap(x.properties))
    if isinstance(x, words.WordForm):
        return ('F', snap(x.word), snap(x.properties), snap(x.form_properties))
    if isinstance(x, templates.Template):
        return ('T', x.template, tuple(snap(s) for s in x._substitutions))
    if isinstance(x, templates.Substitution):
        return ('S', x.id, tuple(snap(d) for d in x.dependencies))
    if isinstance(x, dictionary.Dictionary):
        return ('D', tuple((k, snap(v)) for k, v in sorted(x._data.items(), key=lambda kv: kv[0])))
    if isinstance(x, dict):
        return ('d', tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    return x


# ---------------------------------------------------------------- generators

LETTERS = 'аеёиоуыэюяАЕОЮбвгклмнрстщьъйБВСКТЬ'
ODD = ['', '', 'в', 'с', 'о', 'В', 'С', 'к', 'сон', 'сна', 'рот', 'рта', 'мне', 'всех', 'всём', 'что', 'всей', 'день', 'дня', 'ßа', 'ŉ', 'ǆе', 'x', 'I', '%', '%s', '5', '-', ' ', 'ё', 'ъ', 'Мне', 'об', 'обо', 'во', 'а', 'б',
       '\t', '\n', '  ', '\u00a0', ' а', 'а ', '0', 'None', 'И', 'İ', 'ı', 'ﬁн', 'ὖ', 'e', 'E', 'bc', 'St', '\u0301', 'а\u0301б', '👍', '\u200b', '\x00', '\ud800', 'сло во', 'сло-во', 'abcdefghij' * 4,
       'и\u0306', 'Е\u0308ж', 'e\u0301', '\u212b', '\u1100\u1161', 'ｘ', 'a\u0323\u0307', 'a\u0307\u0323', 'слово' * 60, 'аб' * 130, 'т' * 70, 'йод', 'Йод', 'ётр', 'ЁЖ', 'ь', 'Ъ', 'ST', 'Ст', 'сТ', '%%', '[', ']', '|', ',', '{}', '\\']
SPACES = ['', '', '', ' ', '  ', '\t', '\n', '\u00a0']


def constants():
    """texts and numbers the current code mentions: inputs near them are where its behaviour may turn"""
    texts, numbers = set(), set()
    for f in sorted(os.listdir(os.path.dirname(utg.__file__))):
        if not f.endswith('.py') or f == 'relations.py': continue
        with open(os.path.join(os.path.dirname(utg.__file__), f), encoding='utf-8') as src: tree = ast.parse(src.read())
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant): continue
            if isinstance(node.value, str) and 0 < len(node.value) <= 24: texts.add(node.value)
            if type(node.value) is int: numbers.add(node.value)
    return sorted(texts), sorted(numbers)


TEXTS, INTS = constants()


def resembling(rng, texts):
    """a text made of one the code mentions"""
    x = rng.choice(texts)
    k = rng.random()
    y = rng.choice(LETTERS) if rng.random() < 0.7 else rng.choice(texts)
    return x if k < 0.3 else x + y if k < 0.5 else y + x if k < 0.7 else y + x + rng.choice(LETTERS) if k < 0.85 else x + x if k < 0.9 else x.swapcase() if k < 0.95 else x[:-1]


def size(rng, lo, hi, most, rare=0.02):
    """a length: small as a rule, now and then well beyond anything a fixed limit in the code would be set to"""
    if rng.random() >= rare: return rng.randint(lo, hi)
    if INTS and rng.random() < 0.3:
        n = rng.choice(INTS) + rng.choice([-1, 0, 1])
        if lo <= n <= most: return n
    return rng.randint(hi, most)


MANY = (99, 257, 1300)      # lengths beyond what a limit in the code (or the interpreter's recursion limit) would be set to


def g_ids(rng, lo=0, hi=4, most=120):
    return [rng.choice(IDS) for _ in range(size(rng, lo, hi, most, 0.004))]


def g_text(rng, hi=4):
    if TEXTS and rng.random() < 0.06:
        return resembling(rng, TEXTS)
    if rng.random() < 0.35:
        return rng.choice(ODD)
    return ''.join(rng.choice(LETTERS) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, hi)))


SMALL = ['INTEGER', 'TEXT', 'PREPOSITION', 'NOUN', 'VERB']


def g_word(rng, types=None, texts=None):
    t = rng.choice(types or (SMALL if rng.random() < 0.7 else TYPE_NAMES))
    n = FORMS_N[t]
    style = rng.random()
    if texts is not None:
        forms = [rng.choice(texts) for _ in range(n)]
    elif style < 0.35:
        forms = rng.choice(['w', 'сл', 'А', 'о']) 
        if style < 0.1:
            forms = [f if rng.random() < 0.5 else g_text(rng) for f in ['%s%d' % (forms, k) for k in range(n)]]
    elif style < 0.6:
        pool = [g_text(rng) for _ in range(rng.randint(1, 4))]
        forms = [rng.choice(pool) for _ in range(n)]
    else:
        forms = [g_text(rng) for _ in range(n)]
    return {'t': t, 'forms': forms, 'p': g_ids(rng, 0, 3)}


NUMBERS = [0, 1, 2, 3, 4, 5, 10, 11, 12, 14, 19, 20, 21, 22, 24, 25, 100, 101, 102, 111, 112, 114, 121, 122, 1000, 10000, 10001, 10002, 10011, 10021, 10022, 1000000, 1000000000, 1000001, 1000002, 2000000, 1000000000000]


def g_number(rng):
    k = rng.random()
    if INTS and k < 0.15:
        n = rng.choice(INTS) + rng.choice([-1, 0, 0, 1]) + (rng.choice([1, 2, 7, 10 ** 9 + 1, 10 ** 20]) * 10 ** rng.randint(1, 16) if rng.random() < 0.4 else 0)
        return -n if rng.random() < 0.25 else n
    n = rng.choice(NUMBERS) if k < 0.5 else rng.randint(-200, 200) if k < 0.7 else rng.randint(-20000, 20000) if k < 0.9 else rng.randint(-10 ** 30, 10 ** 30)
    return -n if rng.random() < 0.25 else n


def g_word_form(rng, types=None):
    if types is None and rng.random() < 0.3 or types == ['INTEGER']:
        return ['int', g_number(rng)]
    return ['form', g_word(rng, types), g_ids(rng, 0, 3) if rng.random() < 0.6 else None, g_ids(rng, 0, 3) if rng.random() < 0.3 else None]


# ---------------------------------------------------------------- C01

def entries(spec, pool):
    out = []
    for e in spec:
        if e is None:
            out.append(None)
        elif isinstance(e, str):
            out.append(rec(e))
        else:
            out.append(pool[e])
    return out


@case('C01.merge')
def c01(p):
    pool = [props(ids) for ids in p['pool']]
    views = [pview(ids) for ids in p['pool']]
    for q, v in zip(pool, views):
        same_view(q, v, 'property set')
    es = entries(p['seq'], pool)
    want = {}
    for e in p['seq']:
        if isinstance(e, str):
            want[rec(e)._relation] = rec(e)
        elif e is not None:
            want.update(views[e])
    res = words.Properties(*es)
    same_view(res, want, 'Properties(*entries)')
    for q, v in zip(pool, views):
        same_view(q, v, 'a merged-in property set afterwards')
    c0 = res.clone()
    ext = entries(p['ext'], pool)
    want2 = dict(want)
    for e in p['ext']:
        if isinstance(e, str):
            want2[rec(e)._relation] = rec(e)
        elif e is not None:
            want2.update(views[e])
    hash(res), str(res), res == c0, [res.get_raw_key(t.schema) for t in ref.TYPES]
    c = res.clone(*ext)
    same_view(c, want2, 'clone(*entries)')
    same_view(res, want, 'the cloned property set afterwards')
    if hasattr(res, '_update'):
        res._update(*ext)
        same_view(res, want2, 'property set after extension')
        same_view(c0, want, 'an earlier copy after extension')
        need(res == c and hash(res) == hash(c), 'the extended set differs from the extended clone')
        for t in ref.TYPES: same(res.get_raw_key(t.schema), tuple(ref.get(want2, R) for R in t.schema), 'raw key for %s after extension' % t.name)
        c2 = c.clone()
        c2._update(*entries(p['seq'], pool))
        same_view(c, want2, 'the cloned property set after extension of the clone')
    for q, v in zip(pool, views):
        same_view(q, v, 'a merged-in property set after later extension')
    for t in ref.TYPES:
        same(words.Properties(*es).get_raw_key(t.schema), tuple(ref.get(want, R) for R in t.schema), 'raw key for %s' % t.name)


@gen('C01', 'C01.merge')
def g_c01(rng):
    pool = [g_ids(rng, 0, 5) for _ in range(size(rng, 0, 4, 40))]

    def seq(hi):
        out = []
        for _ in range(size(rng, 0, hi, 400)):
            k = rng.random()
            out.append(None if k < 0.15 else rng.randrange(len(pool)) if pool and k < 0.6 else rng.choice(IDS))
        return out
    return {'pool': pool, 'seq': seq(8), 'ext': seq(3)}


@fixed('C01', 'C01.merge')
def f_c01():
    for i in IDS:
        yield {'pool': [[i]], 'seq': [i], 'ext': []}
        yield {'pool': [[i]], 'seq': [0, None], 'ext': [0]}
        for v in rec(i)._relation.records:
            yield {'pool': [[i], [v.verbose_id]], 'seq': [0, 1], 'ext': [0]}
    yield {'pool': [[]], 'seq': [], 'ext': []}
    yield {'pool': [[]], 'seq': [0], 'ext': [None]}


# ---------------------------------------------------------------- C02

def json_trip(x):
    return json.loads(json.dumps(x))


@fixed('C01', 'C01.merge')
def f_c01big():
    for n in MANY:
        yield {'pool': [[IDS[0]], IDS[1:3]], 'seq': [(IDS[k % len(IDS)] if k % 3 else k % 2) for k in range(n)] + [0], 'ext': [None] * n + [1]}


@case('C02.properties')
def c02_props(p):
    a = props(p['ids'])
    d = pview(p['ids'])
    s = a.serialize()
    same_view(a, d, 'serialized property set')
    s2 = json_trip(s)
    for st in (s, s2):
        keep = copy.deepcopy(st)
        b = words.Properties.deserialize(st)
        same(st, keep, 'stored data after restoring')
        same_view(b, d, 'restored property set')
        need(a == b and b == a, 'the restored property set differs from the original')
    stale = dict(s2)
    for k, v in p['stale']:
        if k in stale:
            continue
        stale[k] = v
    b = words.Properties.deserialize(stale)
    same_view(b, d, 'property set restored from data with unknown numbers')
    stale = {}
    for k, v in p['stale']:
        stale[k] = v
    stale.update(s2)
    same_view(words.Properties.deserialize(stale), d, 'property set restored from data with unknown numbers')
    stale = {int(k): v for k, v in stale.items()}
    same_view(words.Properties.deserialize(stale), d, 'property set restored from data with unknown numbers (integer keys)')


def unknown_entries():
    known = {pt.value: set(x.value for x in pt.relation.records) for pt in r.PROPERTY_TYPE.records}
    out = []
    for k in [8, -1, 21, 22, 100, 999]:
        if k not in known:
            out += [(str(k), 0), (str(k), 1), (str(k), 7)]
    for k, vals in known.items():
        for v in (-1, 2, 3, 6, 7, 9, 10, 11, 50):
            if v not in vals:
                out.append((str(k), v))
    return out


STALE = unknown_entries()


@gen('C02', 'C02.properties')
def g_c02p(rng):
    return {'ids': g_ids(rng, 0, 8), 'stale': [list(rng.choice(STALE)) for _ in range(size(rng, 0, 4, 60))]}


@fixed('C02', 'C02.properties')
def f_c02p():
    for i in IDS:
        yield {'ids': [i], 'stale': []}
    for s in STALE:
        yield {'ids': [], 'stale': [list(s)]}


@case('C02.word')
def c02_word(p):
    w = word(p['word'])
    before = snap(w)
    s = w.serialize()
    same(snap(w), before, 'serialized word')
    for st in (json_trip(s), s):
        v = words.Word.deserialize(st)
        need(v == w and w == v, 'the restored word differs from the original')
        same(snap(v), before, 'restored word')


@gen('C02', 'C02.word')
def g_c02w(rng):
    return {'word': g_word(rng)}


@fixed('C02', 'C02.word')
def f_c02w():
    for t in TYPE_NAMES:
        yield {'word': {'t': t, 'forms': 'w', 'p': []}}
    for x in ODD:
        yield {'word': {'t': 'TEXT', 'forms': [x], 'p': []}}


def substitution(s):
    x = templates.Substitution()
    x.id = s['id']
    x.dependencies = [d if isinstance(d, str) else props(d) for d in s['deps']]
    return x


@case('C02.template')
def c02_template(p):
    t = templates.Template()
    t._substitutions = [substitution(s) for s in p['subs']]
    t.template = p['text']
    before = snap(t)
    s = t.serialize()
    same(snap(t), before, 'serialized template')
    for st in (json_trip(s), s):
        u = templates.Template.deserialize(st)
        need(u == t and t == u, 'the restored template differs from the original')
        same(snap(u), before, 'restored template')
    for x in t._substitutions:
        b = snap(x)
        s = x.serialize()
        same(snap(x), b, 'serialized variable')
        for st in (json_trip(s), s):
            y = templates.Substitution.deserialize(st)
            need(x == y and y == x, 'the restored variable differs from the original')
            same(snap(y), b, 'restored variable')


def g_sub(rng):
    return {'id': g_text(rng) or 'x', 'deps': [g_text(rng) or 'hero' if rng.random() < 0.5 else g_ids(rng, 0, 3) for _ in range(size(rng, 0, 4, 70))]}


@gen('C02', 'C02.template')
def g_c02t(rng):
    return {'subs': [g_sub(rng) for _ in range(size(rng, 0, 4, 80))], 'text': g_template_text(rng, ['сл', 'x'], ['n'])}


@fixed('C02', 'C02.template')
def f_c02t():
    for n in MANY:
        yield {'subs': [{'id': 'x%d' % k, 'deps': ['hero'] if k % 5 else [IDS[k % len(IDS):][:2]]} for k in range(n)], 'text': '%s' * n}
    for x in ODD:
        yield {'subs': [{'id': x or 'x', 'deps': [x or 'hero']}], 'text': x.replace('%', '%%') + '%s'}
    for n in MANY:
        yield {'subs': [{'id': 'x', 'deps': ['hero%d' % k if k % 2 else [IDS[k % len(IDS)]] for k in range(n)]}], 'text': '%s'}


@case('C02.parsed')
def c02_parsed(p):
    t = templates.Template()
    try:
        t.parse(p['text'], externals=p['externals'])
    except exceptions.UtgError:
        return
    before = snap(t)
    s = t.serialize()
    same(snap(t), before, 'serialized template')
    for st in (json_trip(s), s):
        u = templates.Template.deserialize(st)
        need(u == t and t == u, 'the restored template differs from the original')
        same(snap(u), before, 'restored template')


@gen('C02', 'C02.parsed')
def g_c02q(rng):
    return {'text': g_template_text(rng, ['слово', 'x', 'Дом'], ['hero', 'num']), 'externals': ['hero', 'num']}


# ---------------------------------------------------------------- C03

@case('C03.tables')
def c03(p):
    t = TYPE[p['t']]
    keys = ref.KEYS[t]
    cache, inv = data.WORDS_CACHES[t], list(words.Word.get_keys(t))
    need(set(cache) == set(keys), '%s: allowed combinations differ from the restrictions: missing %s, superfluous %s', t.name,
         [k for k in keys if k not in cache][:2], [k for k in cache if k not in set(keys)][:2])
    same(sorted(cache.values()), list(range(len(keys))), '%s: positions' % t.name)
    same(len(inv), len(keys), '%s: inverted table size' % t.name)
    for i, k in enumerate(inv):
        same(cache.get(k), i, '%s: position of combination %d' % (t.name, i))
    full = list(itertools.product(*[R.records for R in t.schema]))
    # through the public interface
    w = words.Word(type=t, forms=['f%d' % k for k in range(len(keys))])
    for k in full:
        got = w.form(words.Properties(*k))
        need(got in ['f%d' % cache[ref.KEYS[t][j]] for j in ref.POSITIONS[t][k]], '%s: form for %s is %s', t.name, [x.verbose_id for x in k], got)
    same(words.Word.get_forms_number(t), len(keys), '%s: number of forms' % t.name)


@fixed('C03', 'C03.tables')
def f_c03():
    for t in TYPE_NAMES:
        yield {'t': t}


# ---------------------------------------------------------------- C04

@case('C04.form')
def c04(p):
    w = word(p['word'])
    want = props(p['props'])
    before = (snap(w), snap(want))
    t = w.type
    own, asked = pview(p['word']['p']), pview(p['props'])
    exp = ref.plain_form(w, ref.join(asked, own))
    same(w.form(want), exp, 'form under %s of a word with %s' % (p['props'], p['word']['p']))
    same(w.normal_form(), ref.plain_form(w, own), 'normal form')
    same((snap(w), snap(want)), before, 'word and request after selecting')
    wf = words.WordForm(w, properties=want)
    same(wf.form, ref.form_text(w, ref.join(asked, own)), 'word form')
    forms = list(w.all_forms())
    same(len(forms), len(w.forms), 'number of enumerated forms')
    for i, f in enumerate(forms):
        need(f.word is w, 'enumerated form belongs to another word')
        need(ref.view(f.properties) == ref.join({v._relation: v for v in ref.KEYS[t][i] if v is not None}, own), 'description of enumerated form %d', i)
    plain = word(dict(p['word'], p=[]))
    for i, f in enumerate(plain.all_forms()):
        same(ref.position(t, ref.view(f.properties)), i, 'position selected by the description of enumerated form')
        same(f.form, plain.forms[i], 'enumerated form %d' % i)
        same(plain.form(f.properties), plain.forms[i], 'form under the description of position %d' % i)


@gen('C04', 'C04.form')
def g_c04(rng):
    w = g_word(rng, TYPE_NAMES)
    if rng.random() < 0.7:
        w['forms'] = 'w'
    return {'word': w, 'props': g_ids(rng, 0, 8)}


@fixed('C04', 'C04.form')
def f_c04():
    for t in TYPE_NAMES:
        yield {'word': {'t': t, 'forms': 'w', 'p': []}, 'props': []}


@case('C04.size')
def c04_size(p):
    t = TYPE[p['t']]
    n = FORMS_N[p['t']] + p['delta']
    if n < 0:
        return
    forms = ['x'] * n
    try:
        words.Word(type=t, forms=forms)
        ok = True
    except exceptions.WrongFormsNumberError:
        ok = False
    same(ok, p['delta'] == 0, 'a %s can be built with %d forms (%d positions)' % (p['t'], n, FORMS_N[p['t']]))


@fixed('C04', 'C04.size')
def f_c04s():
    for t in TYPE_NAMES:
        for d in (0, 1, -1, 2, -2, 5, -5, 50, -1000, 1000, FORMS_N[t], -FORMS_N[t]):
            yield {'t': t, 'delta': d}


# ---------------------------------------------------------------- C05

def key_of(k):
    return tuple(None if x is None else rec(x) for x in k)


@case('C05.nearest')
def c05(p):
    key = key_of(p['key'])
    avail = [key_of(k) for k in p['available']]
    if p['kind'] == 'tuple':
        coll = tuple(avail)
    elif p['kind'] == 'dict':
        coll = {k: i for i, k in enumerate(avail)}
        avail = list(coll)
    elif p['kind'] == 'keys':
        d = {k: i for i, k in enumerate(avail)}
        avail = list(d)
        coll = d.keys()
    elif p['kind'] == 'iter':
        coll = iter(list(avail))
    else:
        coll = list(avail)
    got = logic.get_nearest_key(key, coll)
    if p['kind'] != 'iter':
        same(list(coll), avail, 'the collection afterwards')
    if not avail:
        need(got is None, 'nearest of nothing is %r', got)
        return
    ok = [avail[i] for i in ref.nearest_admissible(key, avail)]
    need(got in ok, 'nearest to %s among %s is %s', p['key'], p['available'], None if got is None else [x and x.verbose_id for x in got])


@gen('C05', 'C05.nearest')
def g_c05(rng):
    t = TYPE[rng.choice([n for n in TYPE_NAMES if TYPE[n].schema])]
    none = rng.random() * 0.4

    def k():
        return [None if rng.random() < none else rng.choice(R.records).verbose_id for R in t.schema]
    most = 700
    if rng.random() < 0.4:
        pool = [[x and x.verbose_id for x in rng.choice(ref.KEYS[t])] for _ in range(size(rng, 0, 8, most))]
    else:
        pool = [k() for _ in range(size(rng, 0, 7, most))]
    return {'key': k(), 'available': pool, 'kind': rng.choice(['list', 'tuple', 'dict', 'keys', 'iter'])}


# ---------------------------------------------------------------- C06

@case('C06.autofill')
def c06(p):
    w = word(p['word'])
    forms = list(w.forms)
    adm = ref.autofilled_admissible(w.type, forms)
    pr = snap(w.properties)
    w.autofill_missed_forms()
    same(len(w.forms), len(forms), 'number of forms after autofill')
    for i, (f, ok) in enumerate(zip(w.forms, adm)):
        need(f in ok, '%s: form %d is %r after autofill of %r, expected %s', w.type.name, i, f, forms if len(forms) < 30 else '...', ok)
    same((w.type, snap(w.properties)), (TYPE[p['word']['t']], pr), 'type and properties after autofill')
    after = list(w.forms)
    w.autofill_missed_forms()
    same(w.forms, after, 'forms after a second autofill')


@gen('C06', 'C06.autofill')
def g_c06(rng):
    t = rng.choice(TYPE_NAMES)
    n = FORMS_N[t]
    q = rng.choice([0.02, 0.1, 0.3, 0.5, 0.8, 0.95, 1.0])
    forms = ['f%d' % k if rng.random() < q else '' for k in range(n)]
    if rng.random() < 0.3:
        odd = [' ', '\t', '\n', '\u00a0', '0', '-', 'None', ' x', 'x ', 'X', '\u200b', 'х' * 90]
        forms = [f if rng.random() < 0.6 else rng.choice(odd) if rng.random() < q else '' for f in forms]
    if rng.random() < 0.2:
        forms = [''] * n
        for _ in range(rng.randint(0, 2)):
            forms[rng.randrange(n)] = 'only%d' % rng.randrange(3)
    return {'word': {'t': t, 'forms': forms, 'p': g_ids(rng, 0, 2)}}


@fixed('C06', 'C06.autofill')
def f_c06():
    for t in TYPE_NAMES:
        n = FORMS_N[t]
        yield {'word': {'t': t, 'forms': [''] * n, 'p': []}}
        for k in range(0, n, max(1, n // 12)):
            yield {'word': {'t': t, 'forms': ['x' if j == k else '' for j in range(n)], 'p': []}}
            yield {'word': {'t': t, 'forms': ['' if j == k else 'f%d' % j for j in range(n)], 'p': []}}
        for x in (' ', '\t', '0', '\u00a0', '-'):
            yield {'word': {'t': t, 'forms': [x if j % 3 == 0 else 'f%d' % j if j % 3 == 1 else '' for j in range(n)], 'p': []}}


# ---------------------------------------------------------------- C07

@case('C07.history')
def c07(p):
    pool = [word(w) for w in p['pool']]
    D = dictionary.Dictionary([pool[i] for i in p['init']]) if p['init'] is not None else dictionary.Dictionary()
    R = ref.RefDictionary()
    for i in p['init'] or []:
        R.add(pool[i])

    def lookups():
        texts = set(p['absent']) | set(R.best)
        for w in pool:
            texts |= set(w.forms)
        for text in sorted(texts):
            want = R.best.get(text)
            same(D.has_word(text), want is not None, 'presence of %r' % text)
            if want is None:
                try:
                    got = D.get_word(text)
                    raise Mismatch('absent text %r gives %r' % (text, got))
                except exceptions.NoWordsFoundError:
                    pass
                continue
            got = D.get_word(text)
            same(got.form, text, 'text of the found form')
            need(got.word == want[1] and got.word.forms == want[1].forms and got.word.type is want[1].type, 'text %r belongs to %s %s, expected %s %s',
                 text, got.word.type.name, got.word.forms[:4], want[1].type.name, want[1].forms[:4])
            same(ref.distance(ref.view(got.properties)), want[0][2], 'number of non-default properties of the form found for %r' % text)
            same(names(ref.view(got.properties)), names(want[2]), 'properties of the form found for %r' % text)
        got = D.get_words()
        want = []
        for rank, w, d in R.best.values():
            if w not in want:
                want.append(w)
        need(len(got) == len(want) and all(w in got for w in want), 'stored words: got %s, expected %s', [w.forms[:3] for w in got], [w.forms[:3] for w in want])

    for n, i in enumerate(p['adds']):
        if n in p.get('between', ()): lookups()
        D.add_word(pool[i])
        R.add(pool[i])
    lookups()


def g_homonyms(rng, n):
    texts = [g_text(rng, 3) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        texts.append('')
    if rng.random() < 0.2:
        texts += ['Аб', 'аб']
    out = []
    for _ in range(n):
        t = rng.choice(['TEXT', 'INTEGER', 'PREPOSITION', 'NOUN', 'PREPOSITION', 'TEXT'] if rng.random() < 0.9 else TYPE_NAMES)
        out.append({'t': t, 'forms': [rng.choice(texts) for _ in range(FORMS_N[t])], 'p': g_ids(rng, 0, 2) if rng.random() < 0.6 else rng.choice([['загл'], ['мн'], ['ед']])})
        if rng.random() < 0.3:
            out.append(dict(out[-1], p=g_ids(rng, 0, 2)))
    return out


@gen('C07', 'C07.history')
def g_c07(rng):
    pool = g_homonyms(rng, size(rng, 0, 3, 50))
    k = len(pool)
    seq = [rng.randrange(k) for _ in range(size(rng, 0, 6, 90))] if k else []
    cut = rng.randint(0, len(seq))
    return {'pool': pool, 'init': seq[:cut] if rng.random() < 0.7 else None, 'adds': seq[cut:], 'absent': ['нетслова', ''], 'between': [rng.randint(0, 5) for _ in range(rng.choice([0, 1, 2]))]}


@fixed('C07', 'C07.history')
def f_c07big():
    for n in MANY:
        pool = [{'t': 'TEXT', 'forms': ['т%d' % (k // 2)], 'p': [IDS[k % len(IDS)]]} for k in range(n)]
        yield {'pool': pool, 'init': list(range(n // 2)), 'adds': list(range(n // 2, n)), 'absent': ['нетслова'], 'between': []}


@fixed('C07', 'C07.history')
def f_c07far():
    """two forms of one word share a text, the later one is nearer to the defaults; with few and with many properties of the word"""
    last = {}
    for x in IDS:
        y = ref.VERBOSE[x]
        if y._relation not in last or y.value > ref.VERBOSE[last[y._relation]].value:
            last[y._relation] = x
    for t in TYPE_NAMES:
        T = TYPE[t]
        ds = [ref.distance(ref.view(words.Properties(*k))) for k in words.Word.get_keys(T)]
        seen = set()
        for i, a in enumerate(ds):
            for j in range(i + 1, len(ds)):
                if a <= ds[j] or (a, ds[j]) in seen:
                    continue
                seen.add((a, ds[j]))
                forms = ['ф%d' % k for k in range(len(ds))]
                forms[i] = forms[j] = 'общая'
                own = [x for R, x in last.items() if R not in T.schema]
                for p in ([], own[:2], own[:6], own):
                    yield {'pool': [{'t': t, 'forms': forms, 'p': p}], 'init': None, 'adds': [0], 'absent': []}


@case('C07.order')
def c07_order(p):
    """permuting the insertions changes nothing when there are no complete ties between different words"""
    pool = [word(w) for w in p['pool']]
    seen = {}
    for w in pool:
        k = (w.type.value, tuple(w.forms))
        if k in seen:
            return
        seen[k] = w
    results = []
    for order in itertools.permutations(range(len(pool))):
        D = dictionary.Dictionary()
        for i in order:
            D.add_word(pool[i])
        res = {}
        for w in pool:
            for t in set(w.forms) | set(ref.capitalised(f) for f in w.forms):
                if D.has_word(t):
                    f = D.get_word(t)
                    res[t] = (pool.index(f.word), names(ref.view(f.properties)))
        results.append((order, res))
    for order, res in results[1:]:
        same(res, results[0][1], 'lookups after insertion order %s against %s' % (order, results[0][0]))


@gen('C07', 'C07.order')
def g_c07o(rng):
    return {'pool': g_homonyms(rng, 3)[:3]}


# ---------------------------------------------------------------- C08

@case('C08.history')
def c08(p):
    L = lexicon.Lexicon()
    store = {}
    kind = set if p.get('sets') else frozenset
    def check_store(when):
        for k in set(store) | {'nokey'}:
            same(L.has_key(k), k in store, 'presence of key %r %s' % (k, when))
            for rs in ([], ['a'], ['a', 'b', 'c', 'd', 'e']):
                want = [t for t, x in store.get(k, []) if x <= set(rs)]
                same(list(L.get_templates(k, frozenset(rs))), want, 'templates under %r for %s %s' % (k, rs, when))

    def query(k, rs):
        asked = kind(rs)
        want = [t for t, x in store.get(k, []) if x <= set(rs)]
        got = L.get_templates(k, asked)
        same(list(got), want, 'templates under %r for %s' % (k, rs))
        if isinstance(got, list):
            del got[:]
        best = max([len(x & set(rs)) for t, x in store.get(k, []) if x <= set(rs)] or [-1])
        near = [t for t, x in store.get(k, []) if x <= set(rs) and len(x & set(rs)) == best]
        for f, cands, what in ((L.get_random_template, want, 'random'), (L.get_random_nearest_template, near, 'nearest')):
            for s in range(4 if len(cands) < 2 else 12):
                random.seed(s)
                try:
                    x = f(k, asked) if rs or s % 2 else f(k)
                    need(k in store, 'unknown key %r gives a %s template', k, what)
                    need(cands, 'a %s template %r though none is applicable', what, x)
                    need(x in cands, '%s template under %r for %s is %r, candidates %s', what, k, rs, x, cands)
                except exceptions.UnknownLexiconKeyError:
                    need(k not in store, 'known key %r reported unknown', k)
                except exceptions.NoTemplatesWithSpecifiedRestrictions:
                    need(k in store and not cands, 'applicable %s templates %s not found under %r for %s', what, cands, k, rs)
        same(sorted(asked), sorted(set(rs)), 'requested restrictions after the query')

    def queries(when):
        check_store(when)
        for k, rs in p['queries']: query(k, rs)

    for n, (k, t, rs) in enumerate(p['adds']):
        if n in p.get('between', ()): queries('between adding')
        if rs is None:
            L.add_template(k, t)
            rs = []
        else:
            L.add_template(k, t, restrictions=kind(rs))
        store.setdefault(k, []).append((t, frozenset(rs)))

    queries('after adding')
    check_store('after the queries')


@gen('C08', 'C08.history')
def g_c08(rng):
    R = ['a', 'b', 'c', 'd', 'e']

    def sub():
        return rng.sample(R, rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5]))
    keys = ['k1', 'k2', 3]
    keys += rng.choice([[], [], ['', None, 0], ['K1', 'k1 ']])
    text = rng.choice([lambda i: 'T%d' % i, lambda i: 'T%d' % i, lambda i: rng.choice(['T1', 'T2', ''])])
    adds = [[rng.choice(keys), text(i), sub() if rng.random() < 0.8 else None] for i in range(size(rng, 0, 8, 300))]
    queries = [[rng.choice(keys + ['nokey']), sub()] for _ in range(size(rng, 1, 5, 30))]
    return {'adds': adds, 'queries': queries, 'sets': rng.random() < 0.3, 'between': [rng.randint(0, 8) for _ in range(rng.choice([0, 1, 2]))]}


@fixed('C08', 'C08.history')
def f_c08big():
    for n in MANY:
        yield {'adds': [['k1' if k % 2 else 'q%d' % (k % 300), 'T%d' % k, [['a'], ['b', 'c'], [], None][k % 4]] for k in range(n)], 'queries': [['k1', ['a']], ['q0', []], ['k1', ['b', 'c']], ['nokey', []]], 'sets': False, 'between': []}


# ---------------------------------------------------------------- C09

@case('C09.number')
def c09(p):
    for n in p['numbers']:
        f = constructors.construct_integer(n)
        same(f.form, str(n), 'text of %d' % n)
        same(f.word.type, r.WORD_TYPE.INTEGER, 'type of %d' % n)
        same(list(f.word.forms), [str(n)], 'forms of %d' % n)
        d = ref.integer_properties(n)
        same_view(f.properties, d, 'properties of the form of %d' % n)
        same_view(f.word.properties, d, 'properties of the word of %d' % n)
        same_view(f.form_properties, d, 'form properties of %d' % n)


@gen('C09', 'C09.number')
def g_c09(rng):
    return {'numbers': [g_number(rng) for _ in range(rng.randint(1, 40))]}


@fixed('C09', 'C09.number')
def f_c09():
    # boundaries first: the order of requests must not matter
    yield {'numbers': [10001, 10000, -1, 0, 1, -1, 1000000, -1000000, 10 ** 9, -10 ** 9, 10 ** 6 + 1, 10 ** 9 + 1, 10 ** 6 - 1]}
    for lo in range(-12000, 12000, 500):
        yield {'numbers': list(range(lo, lo + 500))}
    for k in range(0, 40):
        for d in (-30, 30):
            yield {'numbers': list(range(10 ** k - 30, 10 ** k + 30)) + list(range(-10 ** k - 30, -10 ** k + 30))}
            break
    yield {'numbers': list(range(10005, -6, -1))}
    for m in range(2, 120):
        yield {'numbers': [m * 1000000, m * 1000000 + 1, m * 1000000 + 2, m * 1000000 + 11, -m * 1000000]}


# ---------------------------------------------------------------- C10, C11

NOUNLIKE, ADJLIKE = ['NOUN', 'PRONOUN'], ['ADJECTIVE', 'PARTICIPLE', 'VERB']


def fast_word(t, forms='w', p=()):
    key = (t, forms, tuple(p))
    if key not in _WORDS:
        _WORDS[key] = word({'t': t, 'forms': forms, 'p': list(p)})
    return _WORDS[key]


_WORDS = {}


def numeral_case(p, fn):
    t, ids = p['t'], p['props']
    a = props(ids)
    d = pview(ids)
    w = fast_word(t)
    m = constructors.construct_integer(p['n'])
    before = snap(w)
    got = transformators.transform(slave_word=w, slave_propeties=a, master_form=m)
    want = fn(d)
    if ref.view(got) != want:
        raise Mismatch('%s with %s beside a numeral: got %s, expected %s' % (t, ids, names(ref.view(got)), names(want)))
    same_view(a, d, 'the input property set afterwards')
    same(snap(w), before, 'the word afterwards')


@case('C10.numeral')
def c10(p):
    numeral_case(p, ref.noun_with_numeral)


@case('C11.numeral')
def c11(p):
    numeral_case(p, ref.adjective_with_numeral)


def numeral_space(types, rels):
    opts = [[None] + [x.verbose_id for x in R.records] for R in rels]
    for t in types:
        for combo in itertools.product(*opts):
            yield {'t': t, 'props': [x for x in combo if x], 'n': 5}


@fixed('C10', 'C10.numeral')
def f_c10():
    return numeral_space(NOUNLIKE, [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.ANIMALITY, r.NUMBER, r.NOUN_FORM])


@fixed('C11', 'C11.numeral')
def f_c11():
    return numeral_space(ADJLIKE, [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.GENDER, r.NUMBER])


@gen('C10', 'C10.numeral')
def g_c10(rng):
    return {'t': rng.choice(NOUNLIKE), 'props': g_ids(rng, 0, 9), 'n': g_number(rng)}


@gen('C11', 'C11.numeral')
def g_c11(rng):
    return {'t': rng.choice(ADJLIKE), 'props': g_ids(rng, 0, 9), 'n': g_number(rng)}


@case('C10.rendered')
def c10_rendered(p):
    """[n] and the word depending on it, rendered"""
    w = {'t': p['t'], 'forms': 'w', 'p': p['own']}
    base = word_form(['form', w, p['props'], None])
    ext = {'n': constructors.construct_integer(p['n']), 'x': base}
    t = templates.Template()
    t.parse('[n] [x|n%s]' % ('|' + ','.join(p['deps']) if p['deps'] else ''), externals=['n', 'x'])
    got = t.substitute(ext, dictionary.Dictionary())
    d = ref.join(pview(p['props']), pview(p['own']), ref.integer_properties(p['n']), pview(p['deps']), pview(p['own']))
    d = ref.noun_with_numeral(d) if p['t'] in NOUNLIKE else ref.adjective_with_numeral(d)
    want = '%d %s' % (p['n'], ref.form_text(base.word, d))
    same(got, want, '%s after %d' % (p['t'], p['n']))


@gen('C10', 'C10.rendered')
def g_c10r(rng, types=NOUNLIKE):
    return {'t': rng.choice(types), 'own': g_ids(rng, 0, 2), 'props': g_ids(rng, 0, 4), 'deps': g_ids(rng, 0, 3), 'n': g_number(rng)}


@gen('C11', 'C10.rendered')
def g_c11r(rng):
    return g_c10r(rng, ADJLIKE)


# ---------------------------------------------------------------- C12

@case('C12.agree')
def c12(p):
    s = word(p['slave'])
    m = word_form(p['master'])
    a = props(p['props'])
    d = pview(p['props'])
    before = (snap(s), snap(m))
    got = transformators.transform(slave_word=s, slave_propeties=a, master_form=m)
    want = ref.agree(s, d, m)
    if ref.view(got) != want:
        raise Mismatch('%s %s before %s %r: got %s, expected %s' % (s.type.name, s.forms[:3], m.word.type.name, ref.word_form_text(m), names(ref.view(got)), names(want)))
    same_view(a, d, 'the input property set afterwards')
    same((snap(s), snap(m)), before, 'the words afterwards')
    got2 = transformators.transform(slave_word=s, slave_propeties=a, master_form=m)
    same(ref.view(got2), want, 'asked again')


PREPS = [['в', 'во', 'в'], ['с', 'со', 'с'], ['о', 'об', 'обо'], ['к', 'ко', 'к'], ['у', 'у', 'у'], ['за', 'за', 'за'], ['В', 'Во', 'В'], ['об', 'обо', 'о'], ['', 'x', 'y'], ['по', 'по', 'по'],
         ['из', 'изо', 'из'], ['О', 'Об', 'Обо'], ['ь', 'q', 'w'], ['b', 'bo', 'bb']]
MASTERS = [['сон', 'сна'], ['рот', 'рта'], ['лёд', 'льда'], ['день', 'дня'], ['власть', 'власти'], ['Власть', 'власти'], ['слово', 'слова'], ['страх', 'страха'], ['в', ''], ['с', 'о'], ['вд', 'вды'], ['ВД', 'вды'],
           ['всех', ''], ['мне', 'я'], ['всём', 'весь'], ['что', 'чему'], ['всей', 'вся'], ['Мне', 'мы'], ['отъезд', ''], ['яма', 'ям'], ['ёлка', 'ель'], ['еда', ''], ['юг', ''], ['Юг', ''], ['асфальт', ''], ['Эхо', 'эха'], ['и', 'ы'],
           ['', ''], ['', 'сна'], ['ъ', 'ь'], ['ьв', 'а'], ['льны', 'лён'], ['x', 'yx'], ['1', '2'], ['вс', 'ваос'], ['сз', 'осз'], ['тст', 'оо'], ['сто', 'ста'], ['ст', 'сот'], ['вй', 'вый']]


def g_master(rng):
    if rng.random() < 0.6:
        m = rng.choice(MASTERS)
        t = rng.choice(TYPE_NAMES)
        n = FORMS_N[t]
        forms = ['' if rng.random() < 0.1 else rng.choice(m) for _ in range(n)]
        if rng.random() < 0.7:
            forms[0] = m[0]
        return ['form', {'t': t, 'forms': forms, 'p': g_ids(rng, 0, 2)}, g_ids(rng, 0, 3) if rng.random() < 0.5 else None, g_ids(rng, 0, 3) if rng.random() < 0.3 else None]
    return g_word_form(rng)


@gen('C12', 'C12.agree', 2)
def g_c12(rng):
    return {'slave': {'t': 'PREPOSITION', 'forms': rng.choice(PREPS), 'p': g_ids(rng, 0, 1)}, 'master': g_master(rng), 'props': g_ids(rng, 0, 4)}


@gen('C12', 'C12.agree')
def g_c12b(rng):
    return {'slave': g_word(rng, TYPE_NAMES), 'master': g_word_form(rng), 'props': g_ids(rng, 0, 5)}


@fixed('C12', 'C12.agree')
def f_c12():
    for s in PREPS:
        for m in MASTERS:
            yield {'slave': {'t': 'PREPOSITION', 'forms': s, 'p': []}, 'master': ['form', {'t': 'PREPOSITION', 'forms': [m[0], m[1], m[1]], 'p': []}, [], None], 'props': []}
            yield {'slave': {'t': 'PREPOSITION', 'forms': s, 'p': []}, 'master': ['form', {'t': 'TEXT', 'forms': [m[0]], 'p': []}, ['загл'], None], 'props': ['алт']}
            yield {'slave': {'t': 'PREPOSITION', 'forms': s, 'p': []}, 'master': ['form', {'t': 'NOUN', 'forms': [m[0]] * 6 + [m[1]] * 12, 'p': []}, ['мн'], None], 'props': ['спц']}
    for a in TYPE_NAMES:
        for b in TYPE_NAMES:
            for forms in ('в', 'а'):
                yield {'slave': {'t': a, 'forms': forms, 'p': []}, 'master': ['form', {'t': b, 'forms': 'вд', 'p': []}, None, None], 'props': ['вн', 'мн', 'цд']}


@case('C12.rendered')
def c12_rendered(p):
    ext = {'m': word_form(p['master']), 's': word_form(['form', p['slave'], p['props'], None])}
    t = templates.Template()
    t.parse('[s|m] [m]', externals=['m', 's'])
    got = t.substitute(ext, dictionary.Dictionary())
    m, s = word_form(p['master']), word_form(['form', p['slave'], p['props'], None])
    d = ref.join(pview(p['props']), pview(p['slave']['p']), ref.view(m.properties), pview(p['slave']['p']))
    want = ref.form_text(s.word, ref.agree(s.word, d, m)) + ' ' + ref.form_text(m.word, ref.join(ref.view(m.properties), ref.view(m.word.properties)))
    same(got, want, 'preposition rendered before a word')


@gen('C12', 'C12.rendered')
def g_c12r(rng):
    return {'slave': {'t': 'PREPOSITION', 'forms': rng.choice(PREPS), 'p': []}, 'master': g_master(rng), 'props': g_ids(rng, 0, 2)}


# ---------------------------------------------------------------- templates: texts

LITERALS = ['', ' ', '%', '%%', '%s', '%d', '%(a)s', '[', ']', '[]', '[[', ']]', '][', 'текст', 'a', '|', '\n', '100%', '{}', '\\', '.', '*', '(', '%%s', '$', 's', '[ ', '%[', ']%']


def g_variable(rng, word_texts, ext_names, odd=0.0):
    base = rng.choice(word_texts + ext_names) if word_texts + ext_names else 'x'
    k = rng.random()
    if k < 0.15:
        base = base.upper()
    elif k < 0.4:
        base = base[:1].upper() + base[1:]
    parts = [rng.choice(SPACES) + base + rng.choice(SPACES)]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]) if rng.random() < 0.99 else rng.randint(5, 60)):
        if ext_names and rng.random() < 0.5:
            x = rng.choice(ext_names)
        else:
            x = ','.join(rng.choice(SPACES) + rng.choice(IDS) + rng.choice(SPACES) if rng.random() < 0.9 else rng.choice(SPACES) for _ in range(rng.choice([0, 1, 1, 2, 3])))
        if rng.random() < 0.2:
            x = x.upper()
        if odd and rng.random() < odd:
            x = rng.choice(['нетакого', 'им;мн', 'noext', '%', 'им мн'])
        parts.append(rng.choice(SPACES) + x + rng.choice(SPACES))
    return '|'.join(parts)


def g_template_text(rng, word_texts, ext_names, odd=0.0):
    out = []
    pool = [g_variable(rng, word_texts, ext_names, odd) for _ in range(3)]
    for _ in range(size(rng, 0, 6, 120)):
        k = rng.random()
        if k < 0.5:
            out.append(rng.choice(LITERALS) if k < 0.44 or not TEXTS else resembling(rng, TEXTS))
        elif k < 0.75:
            out.append('[%s]' % rng.choice(pool))
        else:
            out.append('[%s]' % g_variable(rng, word_texts, ext_names, odd))
    text = ''.join(out)
    # a literal opening bracket swallows what follows; keep only texts whose variables are proper
    return text


class Base(object):
    """what the specification knows about a looked-up form"""
    class P(object):
        def __init__(self, d): self.d = d
        def get(self, R): return ref.get(self.d, R)
        def is_specified(self, R): return R in self.d

    def __init__(self, word, d):
        self.word = word
        self.properties = Base.P(d)


def expected_render(text, ext, ext_names, D):
    """('ok', text) or ('error', set of admissible exception classes); phase 'parse' or 'render'"""
    pieces = ref.split_template(text)
    errs, subs = set(), []
    for var, s in pieces:
        if var:
            try:
                subs.append(ref.parse_variable(s, ext_names))
            except exceptions.UtgError as e:
                errs.add(type(e))
                subs.append(None)
    if errs:
        return ('parse', errs)

    def lookup(wid):
        if wid not in D.best:
            raise exceptions.NoWordsFoundError(text=wid)
        rank, w, d = D.best[wid]
        return Base(w, d)
    out, k = [], 0
    for var, s in pieces:
        if not var:
            out.append(s)
            continue
        try:
            out.append(ref.render_substitution(subs[k][0], subs[k][1], ext, lookup))
        except exceptions.UtgError as e:
            errs.add(type(e))
        k += 1
    if errs:
        return ('render', errs)
    return ('ok', ''.join(out))


def world(p):
    ext = {k: word_form(v) for k, v in p['ext'].items()}
    ws = [word(w) for w in p['dict']]
    D = dictionary.Dictionary(ws)
    R = ref.RefDictionary()
    for w in [word(w) for w in p['dict']]:
        R.add(w)
    return ext, D, R


def render_case(p):
    ext, D, R = world(p)
    names_ = list(p.get('names', p['ext']))
    want = expected_render(p['text'], {k: word_form(v) for k, v in p['ext'].items()}, names_, R)
    t = templates.Template()
    try:
        t.parse(p['text'], externals=names_)
    except exceptions.UtgError as e:
        need(want[0] == 'parse' and type(e) in want[1], 'parsing %r fails with %s, expected %s', p['text'], type(e).__name__, want)
        return t, ext, D, want
    need(want[0] != 'parse', 'parsing %r succeeds, expected %s', p['text'], want)
    try:
        got = t.substitute(ext, D)
    except exceptions.UtgError as e:
        need(want[0] == 'render' and type(e) in want[1], 'rendering %r fails with %s, expected %s', p['text'], type(e).__name__, want)
        return t, ext, D, want
    need(want[0] == 'ok', 'rendering %r gives %r, expected %s', p['text'], got, want)
    same(got, want[1], 'rendering of %r' % p['text'])
    return t, ext, D, want


@case('render')
def c_render(p):
    render_case(p)


def g_world(rng, odd=0.0, simple=False):
    ext = {}
    for n in rng.sample(['hero', 'num', 'враг', 'x', 'n2'], rng.randint(0, 4)):
        ext[n] = ['form', {'t': 'TEXT', 'forms': [g_text(rng)], 'p': []}, None, None] if simple else g_word_form(rng)
    texts = ['меч', 'дом', 'в', 'о', 'с', 'слово', '50%', 'a%b', '%s', 'аб']
    D = []
    for _ in range(rng.randint(0, 4)):
        w = g_word(rng)
        n = FORMS_N[w['t']]
        f = forms_of(w)
        for _ in range(rng.randint(1, 4)):
            f[rng.randrange(n)] = rng.choice(texts)
        f = f if rng.random() < 0.9 else [rng.choice(texts) for _ in range(n)]
        D.append(dict(w, forms=f))
    known = sorted({x for w in D for x in forms_of(w) if x and x.strip() == x and x.lower() == x and '[' not in x and ']' not in x and '|' not in x})
    pool = rng.sample(known, min(len(known), 6)) + (['нетслова'] if rng.random() < odd else [])
    names_ = list(ext)
    text = g_template_text(rng, pool, names_ + (['missing'] if rng.random() < odd else []), odd)
    p = {'ext': ext, 'dict': D, 'text': text}
    if rng.random() < odd:
        p['names'] = names_ + ['missing']
    return p


@gen('C13', 'render', 3)
def g_c13(rng):
    p = g_world(rng, 0.05, True)
    p['dict'] = [{'t': 'TEXT', 'forms': [t], 'p': []} for t in rng.sample(['меч', '50%', '%s', 'a', '[', 'b c', '%', '(', '%%', '100%d'], 5)]
    p['text'] = g_template_text(rng, [w['forms'][0] for w in p['dict']], list(p['ext']))
    return p


@fixed('C13', 'render')
def f_c13big():
    D = [{'t': 'TEXT', 'forms': ['с%d' % k], 'p': []} for k in range(20)]
    for n in MANY:
        yield {'ext': {}, 'dict': D, 'text': ''.join(' %d%% [%s%d]' % (k, 'Сс'[k % 2], k * 7 % 20) for k in range(n))}
        yield {'ext': {}, 'dict': D, 'text': 'ы%' * n + '[с1]' * n}


@gen('C13', 'render')
def g_c13b(rng):
    text = ''.join(rng.choice('[]%sab |d(') for _ in range(size(rng, 0, 12, 300)))
    return {'ext': {}, 'dict': [{'t': 'TEXT', 'forms': [f], 'p': []} for f in ('a', 'b', 's', '%', '%s', 'ab', '[', '[a', 'd', '(', '[[', '[%')], 'text': text}


@gen('C13', 'render')
def g_c13c(rng):
    """variables that contain one another"""
    ids = ['a', '[a', '[[a', '%a', 'a%', 'a%s', '[%a', 'b', '[b', '%[a', '[', '%s', 's']
    few = rng.sample(ids, rng.randint(1, 4))
    text = ''.join(rng.choice(['', '', '', rng.choice(LITERALS), ']', '[', '%']) + '[%s]' % rng.choice(few) for _ in range(rng.randint(1, 7))) + rng.choice(['', '', '[', '%', 'x', '[a', '\0'])
    return {'ext': {}, 'dict': [{'t': 'TEXT', 'forms': [f], 'p': []} for f in ids], 'text': text}


@fixed('C13', 'render')
def f_c13():
    D = [{'t': 'TEXT', 'forms': [f], 'p': []} for f in ('a', '%', '[', '[a', '%a', 'a%', '%%', '[[', '[%', 's', '%s', 'as', 'aa', 'sa')]
    for n in range(0, 6):
        for text in itertools.product('[]%as' if n < 5 else '[]%a', repeat=n):
            yield {'ext': {}, 'dict': D, 'text': ''.join(text)}
    for text in ['[a][a][a]', '[a|][a]', '[a]%[a|]%s', '[A][a][%]', '100% [a] %d%% [%a] [', '[ a ][a]', '[a\n]', '[\n]a', ']][[a]]', '[]][a]', '[][a]', 'и\u0306[a]е\u0308', '\u212b ｘ[a]ﬁ']:
        yield {'ext': {}, 'dict': D, 'text': text}
    # one value never leaks into another place
    for v in ('%s', '%', '[a]', '%(a)s', '{0}', '\\1', '%%', 'и\u0306', 'ﬁ'):
        yield {'ext': {'x': ['form', {'t': 'TEXT', 'forms': [v], 'p': []}, None, None]}, 'dict': D, 'text': '[a]%[x] [x]%%[a][x|x]'}


# ---------------------------------------------------------------- C14

@case('C14.parse')
def c14(p):
    var = '[' + p['inner'] + ']'
    kind = {'list': list, 'dict': dict.fromkeys, 'set': set, 'tuple': tuple}[p['kind']]
    ext = kind(p['externals'])
    try:
        want = ref.parse_variable(p['inner'], p['externals'])
    except exceptions.UtgError as e:
        want = type(e)
    try:
        s = templates.Substitution.parse(var, externals=ext)
    except exceptions.UtgError as e:
        need(want is type(e), 'parsing %r fails with %s, expected %s', var, type(e).__name__, want)
        return
    need(not isinstance(want, type), 'parsing %r succeeds, expected %s', var, want)
    same(s.id, want[0], 'word of %r' % var)
    same(len(s.dependencies), len(want[1]), 'number of dependencies of %r' % var)
    for k, (g, w) in enumerate(zip(s.dependencies, want[1])):
        if isinstance(w, str):
            same(g, w, 'dependency %d of %r' % (k, var))
        else:
            need(isinstance(g, words.Properties), 'dependency %d of %r is %r', k, var, g)
            same_view(g, w, 'dependency %d of %r' % (k, var))
    t = templates.Template()
    t.parse('- %s -' % var, externals=ext)
    same([snap(x) for x in t._substitutions], [snap(s)], 'the same variable inside a template')


@gen('C14', 'C14.parse', 3)
def g_c14(rng):
    ext = rng.sample(['hero', 'num', 'враг', 'им', '', 'a b', '5', 'Hero', 'a,b', 'им,мн', ' x', 'Ёж', 'h|m', 'İx', 'ß', 'е\u0308ж'], rng.randint(0, 6))
    inner = g_variable(rng, ['меч', 'дом', 'x', '', ' ', 'два слова', 'Ёж', '5', '%', 'ß', 'İx', 'straße', 'и\u0306', 'e\u0301'], [e for e in ext], 0.1)
    inner = inner.replace(']', '')
    return {'inner': inner or 'x', 'externals': ext, 'kind': rng.choice(['list', 'dict', 'set', 'tuple'])}


@gen('C14', 'C14.parse')
def g_c14b(rng):
    inner = ''.join(rng.choice(['|', ',', ' ', 'a', 'A', 'им', 'Мн', 'h', '\t', 'рд', '%', '-']) for _ in range(size(rng, 1, 8, 200)))
    return {'inner': inner, 'externals': rng.sample(['a', 'h', 'им', '', 'ah'], 2), 'kind': 'list'}


@fixed('C14', 'C14.parse')
def f_c14():
    for i in IDS:
        yield {'inner': 'слово|%s' % i, 'externals': [], 'kind': 'list'}
        yield {'inner': 'Слово| %s ,, мн' % i.upper(), 'externals': ['hero'], 'kind': 'list'}
    for s in ('x', ' x ', 'X', ' X', 'x|', 'x||', '|', ' |им', '', ' ', 'x|им|hero|мн', 'x|HERO', 'x| hero ', 'x|hero,им', 'x|им,hero', 'X|им', 'xX', '1X', 'x|qq', 'x|,', 'x|им,', 'x|мн,ед', 'ЁЖ|HERO|им'):
        yield {'inner': s, 'externals': ['hero'], 'kind': 'list'}


@fixed('C14', 'C14.parse')
def f_c14big():
    for n in MANY:
        yield {'inner': 'меч|' + '|'.join(['hero', IDS[3], ' ,, '][k % 3] for k in range(n)), 'externals': ['hero'], 'kind': 'list'}
        yield {'inner': 'меч|hero,' + ','.join(IDS[k % len(IDS)] for k in range(n)), 'externals': ['hero,' + IDS[0]], 'kind': 'list'}
        yield {'inner': 'Меч' * n, 'externals': [], 'kind': 'list'}
        yield {'inner': 'x|' + '|'.join('h%d' % k for k in range(n)), 'externals': ['h%d' % k for k in range(n)], 'kind': 'list'}


@case('C14.str')
def c14_str(p):
    a = props(p['ids'])
    s = str(a)
    need(isinstance(s, str) and s.startswith('(') and s.endswith(')'), 'text of a property set is %r', s)
    b = templates.Substitution.parse('[x|%s]' % s[1:-1], externals=[]).dependencies[0]
    same_view(b, pview(p['ids']), 'property set named by its own text %r' % s)
    want = [x.verbose_id for R in ref.RELS for x in [pview(p['ids']).get(R)] if x is not None]
    same(s[1:-1].split(',') if s != '()' else [], want, 'text of a property set')


@gen('C14', 'C14.str')
def g_c14s(rng):
    return {'ids': g_ids(rng, 0, 8)}


@fixed('C14', 'C14.names')
def f_c14n():
    yield {}


@case('C14.names')
def c14_names(p):
    seen = {}
    for R in ref.RELS:
        for x in R.records:
            need(x.verbose_id not in seen, 'property name %r denotes %s and %s', x.verbose_id, x, seen.get(x.verbose_id))
            need(x.verbose_id == x.verbose_id.lower().strip() and ',' not in x.verbose_id and '|' not in x.verbose_id, 'property name %r cannot be written', x.verbose_id)
            seen[x.verbose_id] = x
    for name, x in seen.items():
        got = templates.Substitution.parse('[x|%s]' % name, ()).dependencies
        need([ref.view(d) for d in got] == [{x._relation: x}], 'property name %r denotes %s, expected %s', name, got, x)


# ---------------------------------------------------------------- C15

@case('C15.text')
def c15(p):
    ext, D, R = world(p)
    s = substitution(p['sub'])
    c15_text(p, s, ext, D, R)
    if p.get('then'):
        q = dict(p, **p['then'])
        c15_text(q, s, *world(q))
        c15_text(p, s, ext, D, R)
        w = dict(q['dict'][0], forms=[p['sub']['id']] * FORMS_N[q['dict'][0]['t']]) if q['dict'] else None
        if w:
            D.add_word(word(w))
            R.add(word(w))
            c15_text(p, s, ext, D, R)


def c15_text(p, s, ext, D, R):
    deps = [d if isinstance(d, str) else pview(d) for d in p['sub']['deps']]
    ext2 = {k: word_form(v) for k, v in p['ext'].items()}

    def lookup(wid):
        if wid not in R.best:
            raise exceptions.NoWordsFoundError(text=wid)
        return Base(R.best[wid][1], R.best[wid][2])
    errs = set()
    if p['sub']['id'] not in ext2 and p['sub']['id'] not in R.best:
        errs.add(exceptions.NoWordsFoundError)
    if any(isinstance(d, str) and d not in ext2 for d in deps):
        errs.add(exceptions.ExternalDependecyNotFoundError)
    try:
        got = s.get_text(externals=ext, dictionary=D)
    except exceptions.UtgError as e:
        need(type(e) in errs, 'rendering %r fails with %s', p['sub'], type(e).__name__)
        return
    need(not errs, 'rendering %r gives %r, expected %s', p['sub'], got, errs)
    same(got, ref.render_substitution(p['sub']['id'], deps, ext2, lookup), 'text of %r' % (p['sub'],))


@gen('C15', 'C15.text', 3)
def g_c15(rng):
    p = g_world(rng)
    del p['text']
    texts = sorted({x for w in p['dict'] for x in forms_of(w)})
    names_ = list(p['ext'])
    wid = rng.choice(names_) if names_ and (rng.random() < 0.4 or not texts) else rng.choice(texts) if texts else 'нет'
    if rng.random() < 0.05:
        wid = 'нетслова'
    if names_ and rng.random() < 0.15 and p['dict'] and isinstance(p['dict'][0]['forms'], list):
        p['dict'][0]['forms'][0] = names_[0]      # a name that is also spelled in the dictionary
        wid = names_[0]
    deps = []
    for _ in range(size(rng, 0, 5, 70)):
        if names_ and rng.random() < 0.5:
            deps.append(rng.choice(names_))
        else:
            deps.append(g_ids(rng, 0, 4))
    if rng.random() < 0.05:
        deps.append('missing')
    p['sub'] = {'id': wid, 'deps': deps}
    if rng.random() < 0.3:
        q = g_world(rng)
        p['then'] = {'dict': q['dict'], 'ext': {n: rng.choice([v, g_word_form(rng), v] + list(q['ext'].values())) for n, v in p['ext'].items()}}
    return p


@gen('C15', 'C15.text', 2)
def g_c15b(rng):
    """an inflected word with unique forms and several conflicting dependencies"""
    t = rng.choice(['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'PREPOSITION'])
    ext = {'w': ['form', {'t': t, 'forms': rng.choice(['w', 'в', 'о', 'с']), 'p': g_ids(rng, 0, 2)}, g_ids(rng, 0, 3), g_ids(rng, 0, 2) if rng.random() < 0.3 else None]}
    for n in ('a', 'b', 'c'):
        ext[n] = ['int', g_number(rng)] if rng.random() < 0.4 else ['form', g_word(rng, rng.choice([None, ['NOUN'], ['TEXT']])), g_ids(rng, 0, 3), g_ids(rng, 0, 2) if rng.random() < 0.3 else None]
    deps = [rng.choice(['a', 'b', 'c']) if rng.random() < 0.6 else g_ids(rng, 1, 3) for _ in range(size(rng, 1, 5, 70))]
    return {'ext': ext, 'dict': [], 'sub': {'id': 'w', 'deps': deps}}


@gen('C15', 'C15.text')
def g_c15p(rng):
    """a word whose form depends on the written form of its masters, with several masters of any type"""
    ext = {'w': ['form', {'t': 'PREPOSITION', 'forms': rng.choice(PREPS), 'p': []}, g_ids(rng, 0, 2) if rng.random() < 0.3 else None, None]}
    for n in ('a', 'b', 'c'):
        m = rng.choice(MASTERS + ['ара', 'мне', 'мнк', 'всё'])
        m = m if isinstance(m, str) else m[0]
        t = rng.choice(['INTEGER', 'INTEGER', 'TEXT', 'NOUN', 'PREPOSITION', 'PRONOUN'])
        ext[n] = ['form', {'t': t, 'forms': [m] * FORMS_N[t], 'p': []}, g_ids(rng, 0, 2), None] if rng.random() < 0.9 else ['int', g_number(rng)]
    deps = [rng.choice(['a', 'b', 'c']) if rng.random() < 0.85 else g_ids(rng, 1, 2) for _ in range(rng.randint(2, 5))]
    return {'ext': ext, 'dict': [], 'sub': {'id': 'w', 'deps': deps}}


@fixed('C15', 'C15.text')
def f_c15big():
    noun = {'t': 'NOUN', 'forms': 'w', 'p': []}
    for n in MANY:
        for last in ('a', 'b', ['рд', 'мн']):
            yield {'ext': {'w': ['form', noun, None, None], 'a': ['int', 5], 'b': ['form', noun, ['мн', 'дт'], None]}, 'dict': [], 'sub': {'id': 'w', 'deps': [['a', [IDS[k % len(IDS)]], 'b'][k % 3] for k in range(n)] + [last]}}


@gen('C15', 'render')
def g_c15c(rng):
    return g_world(rng, 0.05)


# ---------------------------------------------------------------- C16

@case('C16.repeat')
def c16(p):
    ext, D, R = world(p)
    probes = sorted(R.best)
    words_before = {text: snap(D.get_word(text)) for text in probes}
    t = templates.Template()
    t.parse(p['text'], externals=list(p['ext']) + p.get('absent', []))
    others = []
    for o in p['others']:
        u = templates.Template()
        u.parse(o, externals=list(p['ext']) + p.get('absent', []))
        others.append(u)
    before = (snap(t), snap(ext), snap(D), [snap(u) for u in others])
    fresh = words.Properties()
    default_word = words.Word(type=r.WORD_TYPE.TEXT, forms=['x'])

    def render(u):
        try:
            return ('ok', u.substitute(ext, D))
        except exceptions.UtgError as e:
            return ('error', type(e).__name__)

    def check(when):
        same((snap(t), snap(ext), snap(D), [snap(u) for u in others]), before, 'template, externals and dictionary %s' % when)
        for text in probes:
            same(snap(D.get_word(text)), words_before[text], 'dictionary form %r %s' % (text, when))
        same(list(ext), list(p['ext']), 'external names %s' % when)
        same(ref.view(words.Properties()), {}, 'an empty property set %s' % when)
        same(ref.view(words.Word(type=r.WORD_TYPE.TEXT, forms=['x']).properties), {}, 'the properties of a word built without any %s' % when)
    first = render(t)
    check('after rendering')
    for k, o in enumerate(others):
        random.seed(k)
        render(o)
        constructors.construct_integer(k * 7 + 3)
        for f in ext.values():
            f.form, f.starts_with_consonant_cluster, f.word.number_of_syllables, f.word.has_fluent_vowel
            f.word.normal_form()
            list(f.word.all_forms())
        for text in probes[:4]:
            D.get_word(text).form
        t.get_undictionaried_words(ext, D)
        D.get_words()
        t.serialize()
        same(render(t), first, 'rendering %r again' % p['text'])
        check('after rendering again')
    ext2, D2, R2 = world(p)
    try:
        again = ('ok', t.substitute(ext2, D2))
    except exceptions.UtgError as e:
        again = ('error', type(e).__name__)
    same(again, first, 'rendering %r with equal inputs' % p['text'])


@gen('C16', 'C16.repeat')
def g_c16(rng):
    p = g_world(rng, 0.15 if rng.random() < 0.4 else 0.0)
    for n in p.pop('names', []):
        if n not in p['ext']: p['absent'] = ['missing']
    pool = sorted({x for w in p['dict'] for x in forms_of(w) if x and x.strip() == x and x.lower() == x and not set('[]|') & set(x)})[:6]
    p['others'] = [g_template_text(rng, pool, list(p['ext']) + p.get('absent', [])) for _ in range(size(rng, 1, 3, 40))]
    bad = [x for x in [p['text']] + p['others'] if any(v and not s.split('|')[0].strip() for v, s in ref.split_template(x))]
    if bad or any(not parses(x, list(p['ext']) + p.get('absent', [])) for x in [p['text']] + p['others']):
        p['text'] = ' '.join('[%s]' % n for n in p['ext'])
        p['others'] = ['[%s|%s]' % (a, b) for a in p['ext'] for b in p['ext']][:6] or ['x']
    return p


def parses(text, names_):
    try:
        for v, s in ref.split_template(text):
            if v:
                ref.parse_variable(s, names_)
        return True
    except exceptions.UtgError:
        return False


# ---------------------------------------------------------------- C17

def migration(name):
    return importlib.import_module('utg.migrations.' + name)


TABLED = ['m_0007_reduce_words_forms', 'm_0008_lower_animiality_nearest_priority', 'm_0009_pronoun_modernization']


def check_layout(name, t, old_forms, new_forms, OLD, NEW):
    same(len(new_forms), len(NEW), '%s: number of forms of %s' % (name, t.name))
    for key, pos in NEW.items():
        got = new_forms[pos]
        if key in OLD:
            same(got, old_forms[OLD[key]], '%s: form of %s for %s' % (name, t.name, [x and x.verbose_id for x in key]))
        else:
            best = max(ref.score(key, k) for k in OLD)
            ok = [old_forms[i] for k, i in OLD.items() if ref.score(key, k) == best]
            need(got in ok, '%s: form of %s for %s is %r, expected one of %s', name, t.name, [x and x.verbose_id for x in key], got, ok)


@case('C17.tabled')
def c17(p):
    m = migration(p['m'])
    t = TYPE[p['t']]
    if not hasattr(m, 'OLD_CACHES') or not hasattr(m, 'NEW_CACHES'): return
    OLD, NEW = m.OLD_CACHES[t], m.NEW_CACHES[t]
    n = max(OLD.values()) + 1
    forms = ['%s%d' % (p['prefix'], k) for k in range(n)] if not isinstance(p['prefix'], list) else (p['prefix'] * n)[:n]
    w = {'type': t.value, 'forms': list(forms), 'properties': dict(p['props'])}
    extra = p.get('extra')
    if extra:
        w['extra'] = extra
    got = m.migrate(w)
    same((got['type'], got['properties'], got.get('extra')), (t.value, dict(p['props']), extra), '%s: type, properties and the rest' % p['m'])
    same(set(got), set(['type', 'forms', 'properties'] + (['extra'] if extra else [])), '%s: fields' % p['m'])
    need(sorted(NEW.values()) == list(range(len(NEW))), '%s: new layout of %s is not numbered 0..n-1', p['m'], t.name)
    check_layout(p['m'], t, forms, got['forms'], OLD, NEW)


@fixed('C17', 'C17.tabled')
def f_c17():
    for m in TABLED:
        for t in TYPE_NAMES:
            yield {'m': m, 't': t, 'prefix': 'f', 'props': {'1': 0}, 'extra': None}
            yield {'m': m, 't': t, 'prefix': ['a', '', 'б'], 'props': {}, 'extra': 5}


@gen('C17', 'C17.tabled')
def g_c17(rng):
    return {'m': rng.choice(TABLED), 't': rng.choice(TYPE_NAMES), 'prefix': rng.choice(['w', [g_text(rng) for _ in range(7)]]), 'props': {str(rng.randint(0, 25)): rng.randint(0, 12) for _ in range(rng.randint(0, 4))}, 'extra': None}


@case('C17.import')
def c17_import(p):
    """a migration that cannot be loaded carries nothing over"""
    m = migration(p['m'])
    need(callable(getattr(m, 'migrate', None)), '%s has no migrate()', p['m'])


@fixed('C17', 'C17.import')
def f_c17i():
    import utg.migrations
    import os
    for f in sorted(os.listdir(os.path.dirname(utg.migrations.__file__))):
        if f.startswith('m_') and f.endswith('.py'):
            yield {'m': f[:-3]}


@case('C17.chain')
def c17_chain(p):
    ms = [migration(m) for m in TABLED]
    for t in ref.TYPES if hasattr(ms[-1], 'NEW_CACHES') else ():
        same(dict(ms[-1].NEW_CACHES[t]), dict(data.WORDS_CACHES[t]), 'layout of %s after the last migration' % t.name)


@case('C17.layouts')
def c17_layouts(p):
    for name, t, table in ref.layouts_of(migration(p['m'])):
        need(ref.enumerated(table), '%s: %s of %s is not in the order of enumeration', p['m'], name, t)


@fixed('C17', 'C17.layouts')
def f_c17l():
    for m in ['m_0001_include_short_forms_in_full'] + TABLED: yield {'m': m}


@fixed('C17', 'C17.chain')
def f_c17c():
    yield {}


@case('C17.simple')
def c17_simple(p):
    name = p['m']
    m = migration(name)
    w = {'type': p['type'], 'forms': list(p['forms']), 'properties': dict(p['props'])}
    if 'patches' in p:
        w['patches'] = {7: {'forms': list(p['patches'])}} if p['patches'] is not None else {}
    patches = copy.deepcopy(w.get('patches'))
    got = m.migrate(w)
    forms, prop = list(p['forms']), dict(p['props'])
    if name.startswith('m_0002') and p['type'] == 0:
        forms = forms + (list(p['patches']) if p['patches'] is not None else forms[6:])
    if name.startswith('m_0004') and p['type'] == 10:
        forms = forms + forms[-1:]
    if name.startswith('m_0005') and p['type'] == 4:
        prop.pop('5', None)
    same((got['type'], got['forms'], got['properties']), (p['type'], forms, prop), name)
    same(got.get('patches'), patches, '%s: patches' % name)


SIMPLE = ['m_0002_countable_noun_form', 'm_0004_new_preposition_form', 'm_0005_remove_time_participle_property']


@gen('C17', 'C17.simple')
def g_c17s(rng):
    m = rng.choice(SIMPLE)
    t = rng.choice([0, 1, 2, 3, 4, 5, 6, 10, {'m_0002': 0, 'm_0004': 10, 'm_0005': 4}[m[:6]]])
    n = 12 if t == 0 else rng.randint(1, 6)
    p = {'m': m, 'type': t, 'forms': [g_text(rng) for _ in range(n)], 'props': {str(rng.randint(0, 25)): rng.randint(0, 12) for _ in range(rng.randint(0, 6))}}
    if m.startswith('m_0002'):
        p['patches'] = [g_text(rng) for _ in range(6)] if rng.random() < 0.5 else None
    return p


@case('C17.first')
def c17_first(p):
    """m_0001: adjectives and participles; the layouts had no leading form category then"""
    m = migration('m_0001_include_short_forms_in_full')
    t = TYPE[p['t']]
    if not hasattr(m, 'OLD_ADJECTIVE_CACHE') or not hasattr(m, 'OLD_PARTICIPLE_CACHE'): return
    OLD = {'ADJECTIVE': m.OLD_ADJECTIVE_CACHE, 'PARTICIPLE': m.OLD_PARTICIPLE_CACHE}.get(p['t'])
    if OLD is None:
        w = {'type': t.value, 'forms': ['a', 'b'], 'properties': {'1': 2}}
        same(m.migrate(copy.deepcopy(w)), w, 'm_0001 on %s' % p['t'])
        return
    n = max(OLD.values()) + 1
    forms = ['f%d' % k for k in range(n)]
    got = m.migrate({'type': t.value, 'forms': list(forms), 'properties': {'1': 1}})
    same((got['type'], got['properties']), (t.value, {'1': 1}), 'm_0001: type and properties')
    NEW = data.WORDS_CACHES[t]
    same(len(got['forms']), len(NEW), 'm_0001: number of forms of %s' % t.name)

    def common(new, old):
        return len([1 for a, b in zip(old, new[1:]) if a == b])
    for key, pos in NEW.items():
        best = max(common(key, k) for k in OLD)
        ok = [forms[i] for k, i in OLD.items() if common(key, k) == best]
        need(got['forms'][pos] in ok, 'm_0001: form of %s for %s is %r, expected one of %s', t.name, [x and x.verbose_id for x in key], got['forms'][pos], ok[:5])


@fixed('C17', 'C17.first')
def f_c17f():
    for t in TYPE_NAMES:
        yield {'t': t}


# ---------------------------------------------------------------- C18

def build(o):
    if o[0] == 'P':
        return props(o[1])
    if o[0] == 'W':
        return word(o[1])
    if o[0] == 'F':
        return word_form(o[1])
    if o[0] == 'S':
        return substitution(o[1])
    t = templates.Template()
    t._substitutions = [substitution(s) for s in o[1]['subs']]
    t.template = o[1]['text']
    return t


def content(x):
    if isinstance(x, words.WordForm):
        return ('F', snap(x.word), snap(x.properties))
    return snap(x)


@case('C18.objects')
def c18(p):
    objs = [build(o) for o in p['objs']] + [build(o) for o in p['objs'] if o[0] != 'F' or o[1][0] != 'int']
    before = [snap(x) for x in objs]
    for k in p['touch']:
        x = objs[k % len(objs)] if objs else None
        if isinstance(x, words.WordForm):
            x.form, x.starts_with_consonant_cluster
            x = x.word
        if isinstance(x, words.Word):
            x.number_of_syllables, x.has_fluent_vowel, x.normal_form(), list(x.all_forms())
        if isinstance(x, words.Properties):
            x.get(r.CASE), x.serialize(), x.get_raw_key(r.WORD_TYPE.NOUN.schema)
    for x in objs:
        for y in objs:
            if type(x) is not type(y):
                if isinstance(x, (words.Properties, words.Word)):
                    need(not (x == y), '%r equals an object of another kind %r', content(x), content(y))
                    need(x != y, 'inequality of objects of different kinds')
                continue
            want = content(x) == content(y)
            same(bool(x == y), want, 'equality of %r and %r' % (content(x), content(y)))
            same(bool(x != y), not want, 'inequality of %r and %r' % (content(x), content(y)))
            if want and not isinstance(x, (templates.Substitution, templates.Template)):
                same(hash(x), hash(y), 'hashes of equal objects %r' % (content(x),))
                same(len({x, y}), 1, 'a set of two equal objects')
    same([snap(x) for x in objs], before, 'the objects afterwards')


def near(rng, o):
    """a copy of o, possibly slightly changed"""
    o = json.loads(json.dumps(o))
    k = rng.random()
    if k < 0.35:
        return o
    if o[0] == 'P':
        o[1] = list(reversed(o[1])) if k < 0.6 else o[1] + g_ids(rng, 1, 1)
    elif o[0] == 'W' or o[0] == 'F' and o[1][0] == 'form':
        w = o[1] if o[0] == 'W' else o[1][1]
        if k < 0.5:
            w['p'] = w['p'] + g_ids(rng, 1, 1)
        elif k < 0.7:
            w['forms'] = forms_of(w)
            w['forms'][rng.randrange(len(w['forms']))] = 'др'
        elif o[0] == 'F':
            o[1][rng.choice([2, 3])] = g_ids(rng, 0, 2)
        else:
            w['p'] = list(reversed(w['p']))
    elif o[0] == 'S':
        if k < 0.6:
            o[1]['deps'] = o[1]['deps'] + [g_ids(rng, 0, 1)]
        elif k < 0.8:
            o[1]['deps'] = list(reversed(o[1]['deps']))
        else:
            o[1]['id'] += 'x'
    elif o[0] == 'T':
        if k < 0.6:
            o[1]['text'] += ' '
        else:
            o[1]['subs'] = o[1]['subs'][1:] + [g_sub(rng)]
    return o


def g_obj(rng, kind):
    if kind == 'P':
        return ['P', g_ids(rng, 0, 4)]
    if kind == 'W':
        return ['W', g_word(rng)]
    if kind == 'F':
        return ['F', g_word_form(rng)]
    if kind == 'S':
        return ['S', g_sub(rng)]
    return ['T', {'subs': [g_sub(rng) for _ in range(rng.randint(0, 2))], 'text': rng.choice(['%s', 'a %s', ''])}]


@gen('C18', 'C18.objects')
def g_c18(rng):
    kind = rng.choice('PWFST')
    a = g_obj(rng, kind)
    objs = [a, near(rng, a), near(rng, a)]
    if rng.random() < 0.3:
        objs.append(g_obj(rng, rng.choice('PWFST')))
    return {'objs': objs, 'touch': [rng.randint(0, 5) for _ in range(rng.randint(0, 2))]}


@fixed('C18', 'C18.objects')
def f_c18():
    for R in ref.RELS:
        ids = [x.verbose_id for x in R.records]
        objs = [['P', [i]] for i in ids] + [['P', []], ['P', [ids[-1], ids[0]]]]
        yield {'objs': objs, 'touch': []}
        w = {'t': 'TEXT', 'forms': ['a'], 'p': []}
        yield {'objs': [['W', dict(w, p=[i])] for i in ids] + [['W', w]], 'touch': [0]}
        yield {'objs': [['F', ['form', w, [i], None]] for i in ids] + [['F', ['form', w, None, None]]], 'touch': []}
        yield {'objs': [['F', ['form', w, None, [i]]] for i in ids[:2]] + [['F', ['form', w, None, None]]], 'touch': []}
    yield {'objs': [['W', {'t': t, 'forms': 'w', 'p': []}] for t in TYPE_NAMES], 'touch': []}
    yield {'objs': [['W', {'t': t, 'forms': ['1'], 'p': []}] for t in ('INTEGER', 'TEXT')], 'touch': []}


# ---------------------------------------------------------------- C19

@case('C19.report')
def c19(p):
    ext, D, R = world(p)
    names_ = list(p['ext'])
    t = templates.Template()
    if p.get('subs') is not None:
        t._substitutions = [substitution(s) for s in p['subs']]
        t.template = ' '.join(['%s'] * len(p['subs']))
        ids = [s['id'] for s in p['subs']]
    else:
        try:
            t.parse(p['text'], externals=names_)
            ids = [ref.parse_variable(s, names_)[0] for v, s in ref.split_template(p['text']) if v]
        except exceptions.UtgError:
            return
    want = [i for i in ids if i not in ext and i not in R.best]
    before = (snap(t), snap(ext), snap(D))
    got = t.get_undictionaried_words(externals=ext, dictionary=D)
    same(list(got), want, 'report of missing words')
    same((snap(t), snap(ext), snap(D)), before, 'template, externals and dictionary after the report')
    try:
        t.substitute(ext, D)
        need(not want, 'rendering succeeds though %s are missing', want)
    except exceptions.NoWordsFoundError:
        need(want, 'rendering does not find a word though none is reported missing')
    except exceptions.UtgError:
        pass
    same(list(t.get_undictionaried_words(externals=ext, dictionary=D)), want, 'report of missing words asked again')
    if want:
        # the dictionary learns one of them, then one becomes an external variable
        D.add_word(words.Word(type=r.WORD_TYPE.TEXT, forms=[want[0]]))
        want = [i for i in want if i != want[0]]
        same(list(t.get_undictionaried_words(externals=ext, dictionary=D)), want, 'report of missing words when the dictionary has learned one')
        if want:
            ext[want[-1]] = word_form(['int', 5])
            want = [i for i in want if i != want[-1]]
            same(list(t.get_undictionaried_words(externals=ext, dictionary=D)), want, 'report of missing words with one more external variable')
        same(list(t.get_undictionaried_words(externals={}, dictionary=dictionary.Dictionary())), ids, 'report of missing words of an empty dictionary')


@gen('C19', 'C19.report')
def g_c19(rng):
    p = g_world(rng, 0.4)
    p.pop('names', None)
    texts = sorted({x for w in p['dict'] for x in forms_of(w)})
    ids = list(p['ext']) * 2 + texts[:8] + ['нет', 'нет1', 'нет2', '']
    p['subs'] = [{'id': rng.choice(ids), 'deps': [rng.choice(list(p['ext'])) if p['ext'] and rng.random() < 0.3 else g_ids(rng, 0, 1) for _ in range(rng.randint(0, 2))]} for _ in range(size(rng, 0, 6, 150))]
    if rng.random() < 0.3:
        p['subs'] = None
    return p


@fixed('C19', 'C19.report')
def f_c19big():
    for n in MANY:
        yield {'ext': {'hero': ['int', 5]}, 'dict': [{'t': 'TEXT', 'forms': ['с%d' % k], 'p': []} for k in range(9)], 'text': '', 'subs': [{'id': 'с%d' % (k % 40) if k % 11 else 'hero', 'deps': []} for k in range(n)]}


# ---------------------------------------------------------------- C20

@case('C20.form')
def c20(p):
    w = word(p['word'])
    f = words.WordForm(w, properties=None if p['a'] is None else props(p['a']), form_properties=None if p['b'] is None else props(p['b']))
    own = pview(p['word']['p'])
    d1 = own if p['a'] is None else ref.join(pview(p['a']), own)
    d = d1 if p['b'] is None else ref.join(pview(p['b']), own)
    want = ref.form_text(w, d)
    before = snap(f)
    for k in p['order']:
        if k == 'form':
            same(f.form, want, 'text of the form')
        elif k == 'get':
            same(words.WordForm.get_form(w, f.form_properties), want, 'get_form')
        elif k == 'cluster':
            f.starts_with_consonant_cluster
        elif k == 'syl':
            w.number_of_syllables, w.has_fluent_vowel
        elif k == 'edit':
            # forms are public data: editors change them in place
            keep = list(w.forms)
            for i, x in enumerate(keep):
                w.forms[i] = 'я' + x
            same(words.WordForm.get_form(w, f.form_properties), ref.form_text(w, d), 'get_form after the forms of the word changed')
            same(words.WordForm(w, f.properties, f.form_properties).form, ref.form_text(w, d), 'text of a form made after the forms of the word changed')
            w.forms[:] = keep
        else:
            w.normal_form()
    same(f.form, want, 'text of the form')
    same(words.WordForm.get_form(w, props(p['c'])), ref.form_text(w, pview(p['c'])), 'get_form under %s' % p['c'])
    same(snap(f), before, 'the word form afterwards')
    same(want, ref.plain_form(w, d) if ref.get(d, r.WORD_CASE) is r.WORD_CASE.LOWER else ref.capitalised(ref.plain_form(w, d)), 'spec')


@gen('C20', 'C20.form')
def g_c20(rng):
    def ids():
        x = g_ids(rng, 0, 3)
        if rng.random() < 0.6:
            x.insert(rng.randint(0, len(x)), rng.choice(['загл', 'загл', 'строч']))
        return x
    w = g_word(rng)
    if rng.random() < 0.4:
        w['p'] = ids()
    return {'word': w, 'a': ids() if rng.random() < 0.7 else None, 'b': ids() if rng.random() < 0.4 else None, 'c': ids(),
            'order': [rng.choice(['form', 'get', 'cluster', 'syl', 'normal', 'edit']) for _ in range(rng.randint(0, 4))]}


@fixed('C20', 'C20.form')
def f_c20():
    for f in ODD + list(LETTERS) + ['слово', 'Слово', 'сЛОВО', 'СЛОВО', '1 сл', ' слово', 'а-Б', 'ﬁx', 'ñandú', 'ιω', 'éa', '\u0345x', 'a\u0301b', '👍x', 'ab cd', 'Ǆx', 'ǆx', 'ΐa']:
        for u in ('загл', 'строч'):
            yield {'word': {'t': 'TEXT', 'forms': [f], 'p': []}, 'a': [u], 'b': None, 'c': [u], 'order': []}
        yield {'word': {'t': 'TEXT', 'forms': [f], 'p': ['загл']}, 'a': ['строч'], 'b': ['строч'], 'c': [], 'order': ['cluster']}


# ---------------------------------------------------------------- C21

@case('C21.phonetics')
def c21(p):
    w = word(p['word'])
    f = words.WordForm(w, properties=props(p['props']))

    def check(what):
        if what in ('syl', 'all'):
            same(w.number_of_syllables, ref.number_of_syllables(w), 'syllables of %r' % w.forms[0])
        if what in ('fluent', 'all'):
            same(w.has_fluent_vowel, ref.has_fluent_vowel(w), 'fluent vowel of %r' % (w.forms[:6],))
        if what == 'all':
            g = words.WordForm(w, properties=props(p['props']))
            text = ref.word_form_text(g)
            same(g.form, text, 'text')
            same(bool(g.starts_with_consonant_cluster), bool(ref.starts_with_cluster(text)), 'consonant cluster at the start of %r' % text)
            same(bool(g.starts_with_consonant_cluster), bool(ref.starts_with_cluster(text)), 'consonant cluster at the start of %r (again)' % text)
    for k in p['order']:
        if k == 'autofill':
            w.autofill_missed_forms()
        else:
            check(k)
    check('all')
    check('all')


@gen('C21', 'C21.phonetics')
def g_c21(rng):
    w = g_word(rng)
    if rng.random() < 0.5:
        f = forms_of(w)
        w['forms'] = [x if rng.random() < 0.5 else '' for x in f]
    if rng.random() < 0.3:
        stem = ''.join(rng.choice('ндкл') for _ in range(2))
        w['forms'] = [rng.choice([stem, stem[0] + 'е' + stem[1], stem + 'а', stem + 'ы', '']) for _ in range(FORMS_N[w['t']])]
    return {'word': w, 'props': g_ids(rng, 0, 3), 'order': [rng.choice(['syl', 'fluent', 'all', 'autofill']) for _ in range(rng.randint(0, 4))]}


@fixed('C21', 'C21.phonetics')
def f_c21():
    for c in ref.VOWELS + ref.CONSONANTS + 'x1 -%':
        for s in (c, c + c, 'а' + c, c + 'а', 'т' + c, c + 'т', c + 'тт'):
            yield {'word': {'t': 'TEXT', 'forms': [s], 'p': []}, 'props': [], 'order': []}
            yield {'word': {'t': 'PREPOSITION', 'forms': [s, 'тат', ''], 'p': []}, 'props': ['алт'], 'order': ['syl']}
    for a, b, c in itertools.product(['', 'а', 'ае', 'т', 'ате', 'ёх', 'оо'], repeat=3):
        for order in ([], ['all', 'autofill'], ['syl', 'fluent', 'autofill', 'all']):
            yield {'word': {'t': 'PREPOSITION', 'forms': [a, b, c], 'p': []}, 'props': [], 'order': order}
