# coding: utf-8
"""Specification functions: what the library has to compute, written from the property statements.

They serve twice: as the postconditions  result == spec(arguments)  of the contracts (pyvc interprets this file symbolically,
next to the code under verification), and natively as the oracle when a counterexample is replayed or searched for.
They never call the functions they specify; they only use the record tables (utg.relations), the declared restrictions and
the public observers of the objects through `view`."""
import itertools

from utg import relations as r
from utg import restrictions
from utg import exceptions
from utg import data
from utg import logic
from utg import templates

RELS = tuple(p.relation for p in r.PROPERTY_TYPE.records)
CODES = frozenset(p.value for p in r.PROPERTY_TYPE.records)
TYPES = tuple(r.WORD_TYPE.records)

VOWELS = 'аеёиоуыэюяАЕЁИОУЫЭЮЯ'
J_VOWELS = 'еёюяЕЁЮЯ'
NOT_J_VOWELS = 'аиоуыэАИОУЫЭ'
VOWELS_NOT_J = tuple(c for c in VOWELS if c not in J_VOWELS)
CONSONANTS = 'бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
VOWEL_SET = frozenset(VOWELS)
CONSONANT_SET = frozenset(CONSONANTS)
NOT_J_SET = frozenset(VOWELS_NOT_J)
SPECIAL_PRONOUNS = ('всех', 'мне', 'всём', 'что', 'всей')


# ---------------------------------------------------------------- property sets

def view(p):
    """the content of a property set: category -> value, specified categories only (intrinsic of the verifier)"""
    return {R: p.get(R) for R in RELS if p.is_specified(R)}


def entry_view(e):
    if e is None:
        return {}
    if hasattr(e, '_relation'):
        return {e._relation: e}
    return view(e)


def merge(*entries):
    out = {}
    for e in entries:
        out.update(entry_view(e))
    return out


def join(*views):
    out = {}
    for v in views:
        out.update(v)
    return out


def default(R):
    if R is r.WORD_TYPE:
        return None
    return R.records[0]


def get(d, R):
    if R in d:
        return d[R]
    return default(R)


def as_properties(d):
    """a property set with the given content (intrinsic of the verifier)"""
    from utg import words
    return words.Properties(*d.values())


def distance(d):
    return sum([1 for R in RELS if R in d and d[R] != default(R)])


# ---------------------------------------------------------------- form tables

def allowed_key(word_type, key):
    """the declared restrictions admit the combination: a category is dropped (None) exactly when the value of an earlier
    category rules it out, and no restricted part is contained in it"""
    rules = restrictions.RESTRICTIONS[word_type]
    for pos, (value, R) in enumerate(zip(key, word_type.schema)):
        ruled_out = any(v is not None and R in rules.get(v, ()) for v in key[:pos])
        if ruled_out != (value is None):
            return False
        if value is not None and value._relation is not R:
            return False
    for part in restrictions.RESTRICTED_KEY_PARTS.get(word_type, ()):
        if part.issubset(frozenset(key)):
            return False
    return True


def all_keys(word_type):
    """allowed combinations, in the order of the categories' values (dropped first)"""
    return [key for key in itertools.product(*[(None,) + tuple(R.records) for R in word_type.schema]) if allowed_key(word_type, key)]


KEYS = {}
POSITION = {}          # full choice of values -> position (where an allowed combination agrees with it)
POSITIONS = {}         # full choice of values -> set of admissible positions


def agreement(a, b):
    return tuple(j for j in range(min(len(a), len(b))) if a[j] == b[j])


def score(a, b):
    ag = agreement(a, b)
    return (len(ag), sum(ag))


def build_tables():
    for t in TYPES:
        keys = KEYS[t] = all_keys(t)
        direct = {}
        for i, key in enumerate(keys):
            for full in itertools.product(*[tuple(R.records) if v is None else (v,) for v, R in zip(key, t.schema)]):
                direct.setdefault(full, set()).add(i)
        table = {}
        for full in itertools.product(*[tuple(R.records) for R in t.schema]):
            if full in direct:
                table[full] = set(direct[full])
            else:
                best = max(score(full, a) for a in direct)
                table[full] = set().union(*[direct[a] for a in direct if score(full, a) == best])
        POSITIONS[t] = table
        # where several allowed combinations are equally near, any choice is admissible: follow the library's
        actual = data.RAW_WORDS_CACHES.get(t, {})
        POSITION[t] = {k: actual[k] if actual.get(k) in v else min(v) for k, v in table.items()}


build_tables()

SIZE = {t: len(KEYS[t]) for t in TYPES}
DESCRIPTION = {t: tuple({v._relation: v for v in key if v is not None} for key in KEYS[t]) for t in TYPES}      # what the combination of a position specifies


def position(word_type, d):
    return POSITION[word_type][tuple(get(d, R) for R in word_type.schema)]


# ---------------------------------------------------------------- words

def capitalised(form):
    return form[:1].upper() + form[1:]


def contract_get_form(cls, word, properties):
    return form_text(word, view(properties))


def plain_form(word, d):
    """form selected by the full property view d"""
    return word.forms[position(word.type, d)]


def form_text(word, d):
    form = plain_form(word, d)
    if get(d, r.WORD_CASE) is r.WORD_CASE.UPPER:
        return capitalised(form)
    return form


def word_form_view(word_form):
    return view(word_form.form_properties)


def word_form_text(word_form):
    return form_text(word_form.word, view(word_form.form_properties))


def vowels_of(form):
    return ''.join([c for c in form if c in VOWEL_SET])


def number_of_syllables(word):
    return max(1, len(vowels_of(word.forms[0])))


def has_fluent_vowel(word):
    base = vowels_of(word.forms[0])
    return any(f and not vowels_of(f).startswith(base) for f in word.forms[1:])


def starts_with_cluster(form):
    return form[:1] in CONSONANT_SET and (len(form) == 1 or form[1] in CONSONANT_SET)


# ---------------------------------------------------------------- nearest key, autofill

def nearest_admissible(key, available):
    """indices of `available` allowed by the property: best (count, priority sum), earliest of its agreement pattern"""
    if not available:
        return []
    best = max(score(key, a) for a in available)
    seen, out = set(), []
    for i, a in enumerate(available):
        if score(key, a) == best and agreement(key, a) not in seen:
            seen.add(agreement(key, a))
            out.append(i)
    return out


def autofilled_admissible(word_type, forms):
    """for every position the set of admissible texts after autofill"""
    keys = KEYS[word_type]
    given = [i for i, f in enumerate(forms) if f]
    out = []
    for i, f in enumerate(forms):
        if f or not given:
            out.append([f])
        else:
            near = nearest_admissible(keys[i], [keys[j] for j in given])
            out.append([forms[given[k]] for k in near])
    return out


# ---------------------------------------------------------------- numerals

def integer_properties(n):
    n = -n if n < 0 else n
    if n == 1000000 or n == 1000000000:
        return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.MIL_BIL}
    if n == 1:
        return {r.NUMBER: r.NUMBER.SINGULAR, r.INTEGER_FORM: r.INTEGER_FORM.SINGULAR}
    if n == 2 or n == 3 or n == 4:
        return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.DUAL}
    if n % 100 >= 10 and n % 100 <= 19:
        return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.PLURAL}
    if n % 10 == 1:
        return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.SINGULAR}
    if n % 10 == 2 or n % 10 == 3 or n % 10 == 4:
        return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.COMPOSITE_DUAL}
    return {r.NUMBER: r.NUMBER.PLURAL, r.INTEGER_FORM: r.INTEGER_FORM.PLURAL}


def noun_with_numeral(d):
    cls = get(d, r.INTEGER_FORM)
    if get(d, r.DEPENDENCY_MODE) is r.DEPENDENCY_MODE.SEMANTIC:
        return join(d, {r.NOUN_FORM: r.NOUN_FORM.NORMAL,
                        r.NUMBER: r.NUMBER.SINGULAR if cls is r.INTEGER_FORM.SINGULAR else r.NUMBER.PLURAL})
    nominative = get(d, r.CASE) is r.CASE.NOMINATIVE
    accusative = get(d, r.CASE) is r.CASE.ACCUSATIVE
    if cls is r.INTEGER_FORM.SINGULAR:
        return join(d, {r.NOUN_FORM: r.NOUN_FORM.NORMAL, r.NUMBER: r.NUMBER.SINGULAR})
    if cls is r.INTEGER_FORM.MIL_BIL:
        return join(d, {r.NOUN_FORM: r.NOUN_FORM.COUNTABLE, r.NUMBER: r.NUMBER.PLURAL, r.CASE: r.CASE.GENITIVE})
    if cls is r.INTEGER_FORM.DUAL:
        governed = nominative or (accusative and get(d, r.ANIMALITY) is r.ANIMALITY.INANIMATE)
    else:
        governed = nominative or accusative
    if not governed:
        return join(d, {r.NOUN_FORM: r.NOUN_FORM.COUNTABLE, r.NUMBER: r.NUMBER.PLURAL})
    if cls is r.INTEGER_FORM.PLURAL:
        return join(d, {r.NOUN_FORM: r.NOUN_FORM.COUNTABLE, r.NUMBER: r.NUMBER.PLURAL, r.CASE: r.CASE.GENITIVE})
    return join(d, {r.NOUN_FORM: r.NOUN_FORM.NORMAL, r.NUMBER: r.NUMBER.SINGULAR, r.CASE: r.CASE.GENITIVE})


def adjective_with_numeral(d):
    cls = get(d, r.INTEGER_FORM)
    if get(d, r.DEPENDENCY_MODE) is r.DEPENDENCY_MODE.SEMANTIC:
        return join(d, {r.NUMBER: r.NUMBER.SINGULAR if cls is r.INTEGER_FORM.SINGULAR else r.NUMBER.PLURAL})
    direct = get(d, r.CASE) is r.CASE.NOMINATIVE or get(d, r.CASE) is r.CASE.ACCUSATIVE
    if cls is r.INTEGER_FORM.SINGULAR:
        return join(d, {r.NUMBER: r.NUMBER.SINGULAR})
    if cls is r.INTEGER_FORM.MIL_BIL:
        return join(d, {r.NUMBER: r.NUMBER.PLURAL, r.CASE: r.CASE.GENITIVE})
    if not direct:
        return join(d, {r.NUMBER: r.NUMBER.PLURAL})
    if cls is r.INTEGER_FORM.DUAL:
        feminine = get(d, r.GENDER) is r.GENDER.FEMININE
        return join(d, {r.NUMBER: r.NUMBER.PLURAL, r.CASE: r.CASE.NOMINATIVE if feminine else r.CASE.GENITIVE})
    if cls is r.INTEGER_FORM.COMPOSITE_DUAL:
        return join(d, {r.NUMBER: r.NUMBER.SINGULAR, r.CASE: r.CASE.GENITIVE})
    return join(d, {r.NUMBER: r.NUMBER.PLURAL, r.CASE: r.CASE.GENITIVE})


# ---------------------------------------------------------------- prepositions and dispatch

def normal_text(word):
    d = view(word.properties)
    return plain_form(word, d)


def preposition(slave_word, d, master_form):
    slave = normal_text(slave_word)
    master = word_form_text(master_form)
    if slave[-1:] in CONSONANT_SET:
        cluster = starts_with_cluster(master)
        if cluster and number_of_syllables(master_form.word) == 1 and has_fluent_vowel(master_form.word):
            return join(d, {r.PREPOSITION_FORM: r.PREPOSITION_FORM.ALTERNATIVE})
        if cluster and (slave == 'в' or slave == 'с') and master[:1] == slave:
            return join(d, {r.PREPOSITION_FORM: r.PREPOSITION_FORM.ALTERNATIVE})
        return d
    if slave == 'о' and master in SPECIAL_PRONOUNS:
        return join(d, {r.PREPOSITION_FORM: r.PREPOSITION_FORM.SPECIAL})
    if master[:1] in NOT_J_SET:
        return join(d, {r.PREPOSITION_FORM: r.PREPOSITION_FORM.ALTERNATIVE})
    return d


def agree(slave_word, d, master_form):
    t = slave_word.type
    if t is r.WORD_TYPE.PREPOSITION:
        return preposition(slave_word, d, master_form)
    if master_form.word.type is r.WORD_TYPE.INTEGER:
        if t is r.WORD_TYPE.NOUN or t is r.WORD_TYPE.PRONOUN:
            return noun_with_numeral(d)
        if t is r.WORD_TYPE.ADJECTIVE or t is r.WORD_TYPE.PARTICIPLE or t is r.WORD_TYPE.VERB:
            return adjective_with_numeral(d)
    return d


# ---------------------------------------------------------------- templates

def verbose_table():
    return {rec.verbose_id: rec for R in RELS for rec in R.records}


VERBOSE = verbose_table()


def named_properties(text):
    """view of the property set a comma separated list of property names denotes"""
    names = [name.strip() for name in text.split(',') if name.strip()]
    for name in names:
        if name not in VERBOSE:
            raise exceptions.UnknownVerboseIdError(verbose_id=name)
    return merge(*[VERBOSE[name] for name in names])


def dependency(part, externals):
    """what one part of a variable says: the name of an external variable, or properties"""
    name = part.strip().lower()
    return name if name in externals else named_properties(name)


def variable_meaning(variable, externals):
    """(word, dependencies) of a variable in brackets"""
    parts = variable[1:-1].split('|')
    word = parts[0].strip()
    if word == '':
        raise exceptions.WrongDependencyFormatError(dependency=variable)
    deps = [dependency(part, externals) for part in parts[1:]]
    if word[0].isupper():
        deps = deps + [{r.WORD_CASE: r.WORD_CASE.UPPER}]
    return word.lower(), deps


def parse_property_names(text):
    """view of the property set named by a comma separated list"""
    out = {}
    for name in text.lower().split(','):
        name = name.strip()
        if not name:
            continue
        if name not in VERBOSE:
            raise exceptions.UnknownVerboseIdError(verbose_id=name)
        out[VERBOSE[name]._relation] = VERBOSE[name]
    return out


def parse_variable(inner, externals):
    """(word, [dependency name or property view])"""
    parts = inner.split('|')
    word = parts[0].strip()
    if not word:
        raise exceptions.WrongDependencyFormatError(dependency=inner)
    deps = []
    for part in parts[1:]:
        name = part.lower().strip()
        if name in externals:
            deps.append(name)
        else:
            deps.append(parse_property_names(part))
    if word[0].isupper():
        deps.append({r.WORD_CASE: r.WORD_CASE.UPPER})
    return word.lower(), deps


def split_template(text):
    """[(is variable, text)]: a variable is an opening bracket, at least one character, and everything up to the first closing one"""
    out, lit, i = [], [], 0
    while i < len(text):
        if text[i] == '[':
            j = text.find(']', i + 1)
            if j > i + 1:
                if lit:
                    out.append((False, ''.join(lit)))
                    lit = []
                out.append((True, text[i + 1:j]))
                i = j + 1
                continue
        lit.append(text[i])
        i += 1
    if lit:
        out.append((False, ''.join(lit)))
    return out


def dependency_view(dep):
    return dep if isinstance(dep, dict) else view(dep)


def substitution_view(base, deps, externals):
    """content of the form shown by a variable whose word form is base and whose dependencies are names or property sets"""
    for dep in deps:
        if isinstance(dep, str) and dep not in externals:
            raise exceptions.ExternalDependecyNotFoundError(dependency=dep)
    d = view(base.properties)
    for dep in deps:
        d = join(d, view(externals[dep].properties) if isinstance(dep, str) else dependency_view(dep))
    d = join(d, view(base.word.properties))
    for master in [externals[dep] for dep in deps if isinstance(dep, str)]:
        d = agree(base.word, d, master)
    return d


def shown(s, base, externals):
    """text of a variable whose word form is base"""
    return form_text(base.word, substitution_view(base, s.dependencies, externals))


def missing_word(s, externals, dictionary):
    return s.id not in externals and not spelled(dictionary, s.id)


def variable_text(s, externals, dictionary):
    return shown(s, externals[s.id] if s.id in externals else looked_up(dictionary, s.id), externals)


def render_substitution(word_id, deps, externals, lookup):
    base = externals[word_id] if word_id in externals else lookup(word_id)
    return form_text(base.word, substitution_view(base, deps, externals))


# ---------------------------------------------------------------- dictionary

class RefDictionary(object):
    def __init__(self):
        self.best = {}

    def add(self, word):
        own = view(word.properties)
        for key, i in zip(KEYS[word.type], range(len(word.forms))):
            d = join({v._relation: v for v in key if v is not None}, own)
            text = form_text(word, d)
            rank = (word.type.value, list(word.forms), distance(d))
            if text not in self.best or rank < self.best[text][0]:
                self.best[text] = (rank, word, d)


# ---------------------------------------------------------------- migrations

def carried(old, new):
    """for every new position the old positions whose description is nearest (the same one, when it exists)"""
    out = {}
    for key, pos in new.items():
        if key in old:
            out[pos] = (old[key],)
        else:
            best = max(score(key, k) for k in old)
            out[pos] = tuple(i for k, i in old.items() if score(key, k) == best)
    return tuple(out[k] for k in range(len(new)))


def carried_first(old, new):
    """the same for the first migration, whose old descriptions lack the leading form category"""
    out = {}
    for key, pos in new.items():
        best = max(len(agreement(k, key[1:])) for k in old)
        out[pos] = tuple(i for k, i in old.items() if len(agreement(k, key[1:])) == best)
    return tuple(out[k] for k in range(len(new)))


def extends(key, old):
    """description `key` is `old` with categories left out or put in another order"""
    return frozenset(v for v in key if v is not None) <= frozenset(v for v in old if v is not None)


# ---------------------------------------------------------------- lexicon

def known(lex, key):
    """abstract content of a lexicon: which keys were added to"""
    return key in lex._data


def stored(lex, key):
    """abstract content of a lexicon: (template, restrictions) under the key, in the order added"""
    return tuple(lex._data.get(key, ()))


# ---------------------------------------------------------------- dictionary content

def form_described(word, i):
    """the word form of a position"""
    from utg import words
    return words.WordForm(word=word, properties=as_properties(DESCRIPTION[word.type][i]))


def forms_of(word):
    """all forms of a word, in order"""
    return [form_described(word, i) for i in range(len(word.forms))]


def better(a, b):
    """form a is to be preferred to form b"""
    ta, tb = a.word.type.value, b.word.type.value
    if ta != tb:
        return ta < tb
    if a.word.forms < b.word.forms:
        return True
    if b.word.forms < a.word.forms:
        return False
    return distance(view(a.properties)) < distance(view(b.properties))


def preferred(best, f, text):
    """of the form chosen before and another one"""
    return f if word_form_text(f) == text and (best is None or better(f, best)) else best


def chosen(best, forms, text):
    """the first of the best among the forms spelled so; best: the one chosen before"""
    for f in forms:
        best = preferred(best, f, text)
    return best


def chosen_after(best, word, text):
    return chosen(best, forms_of(word), text)


def chosen_among(words, text):
    """what a dictionary that was given these words answers"""
    best = None
    for w in words:
        best = chosen_after(best, w, text)
    return best


def stored_form(dictionary, text):
    return dictionary._data[text] if text in dictionary._data else None



def spelled(dictionary, text):
    """abstract content of a dictionary: the texts it answers"""
    return text in dictionary._data


def texts(dictionary):
    """abstract content of a dictionary: all the texts it answers"""
    return [text for text in dictionary._data]


def looked_up(dictionary, text):
    """abstract content of a dictionary: the form it answers with"""
    if text not in dictionary._data:
        raise exceptions.NoWordsFoundError(text=text)
    return dictionary._data[text]


# ---------------------------------------------------------------- stored property sets

def is_stored_property(code, number):
    """the category number and the value number both exist"""
    return code in CODES and number in r.PROPERTY_TYPE(code).relation.index_value


def stored_property(code, number):
    return r.PROPERTY_TYPE(code).relation(number)


# ---------------------------------------------------------------- autofill

# the combination described by each position
DESCRIBED = {t: sorted(data.WORDS_CACHES[t], key=data.WORDS_CACHES[t].get) for t in r.WORD_TYPE.records}


def source_of(w, keys, given, i):
    """the text of form i after autofill: the given text, otherwise that of the nearest given form"""
    if w.forms[i]:
        return w.forms[i]
    near = logic.get_nearest_key(keys[i], given)
    if near is None:
        return w.forms[i]
    return w.forms[data.WORDS_CACHES[w.type][near]]


# ---------------------------------------------------------------- template texts

# a cut text: [(literal, body of the variable after it), ...], tail

def text_of(pieces):
    return ''.join([literal + '[' + body + ']' for literal, body in pieces[0]]) + pieces[1]


def variables_of(pieces):
    return ['[' + body + ']' for literal, body in pieces[0]]


def filled(pieces, texts):
    return ''.join([literal + text for (literal, body), text in zip(pieces[0], texts)]) + pieces[1]


class Match(object):
    """what re tells about a found variable"""
    __slots__ = ('text',)

    def __init__(self, text): self.text = text
    def group(self, number=0): return self.text
    def __getitem__(self, number): return self.text


def matches(variables):
    return [Match(v) for v in variables]


def all_replaced_by(text, replacement, found):
    """every found variable is to be replaced by text; calls the replacement for each, in order"""
    for m in found:
        if replacement(m) != text: return False
    return True


def parsed(variable, externals):
    return templates.Substitution.parse(variable, externals)


def layouts_of(migration):
    """the layouts a migration names: (name, type or name, combination -> position)"""
    for name in ('OLD_ADJECTIVE_CACHE', 'OLD_PARTICIPLE_CACHE', 'OLD_CACHES', 'NEW_CACHES'):
        tables = getattr(migration, name, {})
        if name.endswith('CACHE'): tables = {name: tables}
        for t, table in tables.items(): yield name, getattr(t, 'name', t), table


def enumerated(table):
    """do the positions follow the values of the combinations, the categories taken in some order?"""
    keys = [tuple(-1 if v is None else v._relation.records.index(v) for v in k) for k in sorted(table, key=table.get)]
    if len(set(table.values())) != len(table): return False
    for order in itertools.permutations(range(len(keys[0]) if keys else 0)):
        if all(tuple(a[i] for i in order) < tuple(b[i] for i in order) for a, b in zip(keys, keys[1:])): return True
    return False
