# coding: utf-8
"""Left and right hand sides of the goals: small programs over the library (lhs) and over the specification (rhs).

The verifier interprets them symbolically for all arguments; the same functions run natively when a counterexample is replayed."""
from spec import ref

from utg import relations as r
from utg import data, words, exceptions, transformators, constructors, templates, dictionary, lexicon, logic


# ---------------------------------------------------------------- C01

def c01_build(*entries):
    return words.Properties(*entries)


def c01_build_spec(*entries):
    return ref.merge(*entries)


def c01_clone(p, *entries):
    return p.clone(*entries)


def c01_clone_spec(p, *entries):
    return ref.merge(p, *entries)


def c01_get(p, R):
    return p.get(R)


def c01_get_spec(p, R):
    return ref.get(ref.view(p), R)


def c01_specified(p, R):
    return p.is_specified(R)


def c01_specified_spec(p, R):
    return R in ref.view(p)


def c01_key(p, schema):
    return p.get_raw_key(schema)


def c01_key_spec(p, schema):
    d = ref.view(p)
    return tuple(ref.get(d, R) for R in schema)


def distance(p):
    return p.manhattan_distance()


def distance_spec(p):
    return ref.distance(ref.view(p))


def c01_extend(p, q, e):
    """extending a built set later leaves it and the sets it was built from alone"""
    x = words.Properties(p, q)
    y = x.clone(e)
    z = words.Properties(x, e)
    u = p.clone(q)
    v = u.clone(e)
    return words.Properties(p), words.Properties(q), x, y, z, u, v


def c01_extend_spec(p, q, e):
    x, y = ref.merge(p, q), ref.merge(p, q, e)
    return ref.view(p), ref.view(q), x, y, y, x, y


def c01_default(R):
    return words.Properties().get(R)


def c01_default_spec(R):
    return ref.default(R)


# ---------------------------------------------------------------- C04

def c04_form(w, p):
    return w.form(p)


def c04_form_spec(w, p):
    return ref.plain_form(w, ref.join(ref.view(p), ref.view(w.properties)))


def c04_full(w, p):
    return w._form(p)


def c04_full_spec(w, p):
    return ref.plain_form(w, ref.view(p))


def c04_normal(w):
    return w.normal_form()


def c04_normal_spec(w):
    return ref.normal_text(w)


def c04_all(w):
    fs = list(w.all_forms())
    return len(fs), [(f.word is w, f.properties, f.form_properties) for f in fs]


def c04_all_spec(w):
    own = ref.view(w.properties)
    views = [ref.join(base, own) for base in ref.DESCRIPTION[w.type]]
    return len(w.forms), [(True, d, d) for d in views]


def c04_built(t, forms):
    w = words.Word(type=t, forms=forms)
    return w.type, w.forms, w.properties


def c04_built_spec(t, forms):
    if len(forms) != ref.SIZE[t]:
        raise exceptions.WrongFormsNumberError(wrong_number=len(forms), expected_number=ref.SIZE[t], forms=forms)
    return t, forms, {}


def c04_built_own(t, forms, p):
    w = words.Word(type=t, forms=forms, properties=p)
    return w.type, w.forms, w.properties is p


def c04_built_own_spec(t, forms, p):
    if len(forms) != ref.SIZE[t]:
        raise exceptions.WrongFormsNumberError(wrong_number=len(forms), expected_number=ref.SIZE[t], forms=forms)
    return t, forms, True


# ---------------------------------------------------------------- C10, C11

def noun_with_numeral(properties, slave_word, master_form):
    return ref.noun_with_numeral(ref.view(properties))


def adjective_with_numeral(properties, slave_word, master_form):
    return ref.adjective_with_numeral(ref.view(properties))


# ---------------------------------------------------------------- agreement (C10, C11, C12)

def agreed(slave_word, properties, master_form):
    return transformators.transform(slave_word, properties, master_form)


def agreed_noun_spec(slave_word, properties, master_form):
    return ref.noun_with_numeral(ref.view(properties))


def agreed_adjective_spec(slave_word, properties, master_form):
    return ref.adjective_with_numeral(ref.view(properties))


def transform_spec(slave_word, slave_propeties, master_form):
    return ref.agree(slave_word, ref.view(slave_propeties), master_form)


def agreed_spec(slave_word, properties, master_form):
    return ref.agree(slave_word, ref.view(properties), master_form)


def preposition_spec(properties, slave_word, master_form):
    return ref.preposition(slave_word, ref.view(properties), master_form)


# ---------------------------------------------------------------- word forms (C20), phonetics (C21)

def form_text(word, properties):
    return words.WordForm.get_form(word, properties)


def form_text_spec(word, properties):
    return ref.form_text(word, ref.view(properties))


def word_form_text(f):
    return f.form


def word_form_text_spec(f):
    return ref.word_form_text(f)


def cluster(f):
    return f.starts_with_consonant_cluster


def cluster_spec(f):
    return ref.starts_with_cluster(ref.word_form_text(f))


def form_again(f):
    return (f.form, f.form, f.starts_with_consonant_cluster, f.form, f.starts_with_consonant_cluster)


def form_again_spec(f):
    t = ref.form_text(f.word, ref.view(f.form_properties))
    c = ref.starts_with_cluster(t)
    return (t, t, c, t, c)


def cluster_first(f):
    return (f.starts_with_consonant_cluster, f.form, f.starts_with_consonant_cluster)


def cluster_first_spec(f):
    t = ref.form_text(f.word, ref.view(f.form_properties))
    c = ref.starts_with_cluster(t)
    return (c, t, c)


def built_form(word, properties, form_properties):
    """a word form as it is constructed: what it shows, and the properties it offers to others"""
    f = words.WordForm(word, properties, form_properties)
    return f.form, f.properties, f.form


def built_form_spec(word, properties, form_properties):
    own = ref.view(word.properties)
    p = own if properties is None else ref.join(ref.view(properties), own)
    q = p if form_properties is None else ref.join(ref.view(form_properties), own)
    t = ref.form_text(word, q)
    return t, p, t


def syllables(w):
    return w.number_of_syllables


def syllables_spec(w):
    return ref.number_of_syllables(w)


def fluent(w):
    return w.has_fluent_vowel


def fluent_spec(w):
    return ref.has_fluent_vowel(w)


def phonetics_again(w):
    return (w.number_of_syllables, w.has_fluent_vowel, w.number_of_syllables, w.has_fluent_vowel)


def phonetics_again_spec(w):
    n, v = ref.number_of_syllables(w), ref.has_fluent_vowel(w)
    return (n, v, n, v)


# ---------------------------------------------------------------- numbers (C09)

def number_view(f):
    return (f.form, f.properties, f.word.properties, f.word.type, len(f.word.forms), f.word.forms[0])


def number_after(k, m, n):
    """the answer for n after any other questions"""
    constructors.construct_integer(k)
    constructors.construct_integer(m)
    return number_view(constructors.construct_integer(n))


def number_after_spec(k, m, n):
    d = ref.integer_properties(n)
    return (str(n), d, d, r.WORD_TYPE.INTEGER, 1, str(n))


def number_form(n):
    return number_view(constructors._construct_integer(n))


def number_form_spec(n):
    d = ref.integer_properties(n)
    return (str(n), d, d, r.WORD_TYPE.INTEGER, 1, str(n))


def number_built(number):
    w = words.Word(type=r.WORD_TYPE.INTEGER, forms=[str(number)], properties=ref.as_properties(ref.integer_properties(number)))
    return words.WordForm(w)


# ---------------------------------------------------------------- equality (C18)

def equal(a, b):
    return (a == b, b == a, a != b, b != a)


def equal_properties_spec(a, b):
    e = ref.view(a) == ref.view(b)
    return (e, e, not e, not e)


def same_word(a, b):
    return a.type is b.type and ref.view(a.properties) == ref.view(b.properties) and a.forms == b.forms


def equal_words_spec(a, b):
    e = same_word(a, b)
    return (e, e, not e, not e)


def equal_forms_spec(a, b):
    e = same_word(a.word, b.word) and ref.view(a.properties) == ref.view(b.properties)
    return (e, e, not e, not e)


def hash_agrees(a, b):
    return hash(a) == hash(b) if a == b else True


def hash_agrees_spec(a, b):
    return True


def hash_stable(a):
    """reading derived attributes changes neither the hash nor equality"""
    h = hash(a)
    a.number_of_syllables
    a.has_fluent_vowel
    return (hash(a) == h, a == a)


def hash_stable_form(a):
    h = hash(a)
    a.form
    a.starts_with_consonant_cluster
    a.word.number_of_syllables
    a.word.has_fluent_vowel
    return (hash(a) == h, a == a)


def hash_stable_spec(a):
    return (True, True)


def foreign(a, x):
    return (a == x, a != x)


def foreign_spec(a, x):
    return (False, True)


# ---------------------------------------------------------------- migrations (C17)

def migrated(migrate, word, admissible):
    """the new forms are carried from admissible old ones and nothing else changes"""
    forms, before = list(word['forms']), dict(word)
    got = migrate(word)
    new = got['forms']
    return (len(new) == len(admissible),
            all([any([new[i] == forms[j] for j in admissible[i]]) for i in range(len(admissible))]),
            {k: v for k, v in got.items() if k != 'forms'} == {k: v for k, v in before.items() if k != 'forms'})


def migrated_spec(migrate, word, admissible):
    return (True, True, True)


def migrated_apart(migrate, word):
    """what a migration leaves: everything is observed after it, the old forms before"""
    forms, before = list(word['forms']), dict(word)
    got = migrate(word)
    return ({k: v for k, v in got.items() if k not in ('forms', 'properties')} == {k: v for k, v in before.items() if k not in ('forms', 'properties')},
            list(got['forms']), dict(got['properties']))


def unconcerned_spec(migrate, word):
    return True, list(word['forms']), dict(word['properties'])


def countable_spec(migrate, word):
    forms = list(word['forms'])
    return True, forms + (list(word['patches'][7]['forms']) if word['patches'] else forms[6:]), dict(word['properties'])


def preposition_form_spec(migrate, word):
    forms = list(word['forms'])
    return True, forms + [forms[-1]], dict(word['properties'])


def participle_time_spec(migrate, word):
    d = dict(word['properties'])
    d.pop('5', None)
    return True, list(word['forms']), d


# ---------------------------------------------------------------- nearest description (C05)

def agrees(key, a):
    """the categories in which a agrees with the wanted description, as a tuple of truth values"""
    return tuple(x == y for x, y in zip(key, a))


def rank(key, a):
    """number of agreeing categories first, then the sum of their priorities"""
    return sum([1000 + j for j, (x, y) in enumerate(zip(key, a)) if x == y])


def nearest(key, available):
    got = logic.get_nearest_key(key, available)
    if got is None:
        return 'none', len(available) == 0, True, True
    best = rank(key, got)
    same = [a for a in available if agrees(key, a) == agrees(key, got)]
    return 'found', all(rank(key, a) <= best for a in available), len(same) > 0, same[0] == got


def nearest_spec(key, available):
    if not available:
        return 'none', True, True, True
    return 'found', True, True, True


# ---------------------------------------------------------------- lexicon (C08)

def added(lex, k, t, restrictions, q):
    """adding concerns its own key only"""
    lex.add_template(k, t, restrictions)
    return lex.has_key(q), ref.stored(lex, q)


def added_spec(lex, k, t, restrictions, q):
    if q == k:
        return True, ref.stored(lex, q) + ((t, restrictions),)
    return ref.known(lex, q), ref.stored(lex, q)


def added_free(lex, k, t, q):
    lex.add_template(k, t)
    return lex.has_key(q), ref.stored(lex, q)


def added_free_spec(lex, k, t, q):
    if q == k:
        return True, ref.stored(lex, q) + ((t, frozenset()),)
    return ref.known(lex, q), ref.stored(lex, q)


def fresh_lexicon(q):
    lex = lexicon.Lexicon()
    return lex.has_key(q), ref.stored(lex, q)


def fresh_lexicon_spec(q):
    return False, ()


def known(lex, q):
    return lex.has_key(q)


def known_spec(lex, q):
    return ref.known(lex, q)


def applicable(lex, q, restrictions):
    return list(lex.get_templates(q, restrictions))


def applicable_spec(lex, q, restrictions):
    return [t for t, needed in ref.stored(lex, q) if needed.issubset(restrictions)]


def random_one(lex, q, restrictions):
    t = lex.get_random_template(q, restrictions)
    return any([t == x and needed.issubset(restrictions) for x, needed in ref.stored(lex, q)])


def random_free(lex, q):
    t = lex.get_random_template(q)
    return any([t == x and needed.issubset(frozenset()) for x, needed in ref.stored(lex, q)])


def lexicon_errors(lex, q, restrictions):
    if not ref.known(lex, q):
        raise exceptions.UnknownLexiconKeyError(key=q)
    if not any([needed.issubset(restrictions) for x, needed in ref.stored(lex, q)]):
        raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=q, restrictions=restrictions)


def random_spec(lex, q, restrictions):
    lexicon_errors(lex, q, restrictions)
    return True


def random_free_spec(lex, q):
    lexicon_errors(lex, q, frozenset())
    return True


def nearest_one(lex, q, restrictions):
    """templates carry the restrictions they were added with: (name, restrictions)"""
    t = lex.get_random_nearest_template(q, restrictions)
    shared = len(t[1] & restrictions)
    stored = ref.stored(lex, q)
    return (any([t == x and needed.issubset(restrictions) for x, needed in stored]),
            all([len(needed & restrictions) <= shared for x, needed in stored if needed.issubset(restrictions)]))


def nearest_one_spec(lex, q, restrictions):
    lexicon_errors(lex, q, restrictions)
    return True, True


def nearest_free(lex, q):
    t = lex.get_random_nearest_template(q)
    return any([t == x and needed.issubset(frozenset()) for x, needed in ref.stored(lex, q)])


def nearest_free_spec(lex, q):
    lexicon_errors(lex, q, frozenset())
    return True


# ---------------------------------------------------------------- rendering a variable (C15), missing words (C19), rendering (C16)

def variable_text(s, externals, dictionary):
    return s.get_text(externals=externals, dictionary=dictionary)


def variable_text_spec(s, externals, dictionary):
    return ref.variable_text(s, externals, dictionary)


def missing(t, externals, dictionary):
    return t.get_undictionaried_words(externals, dictionary)


def missing_spec(t, externals, dictionary):
    return [s.id for s in t._substitutions if ref.missing_word(s, externals, dictionary)]


def missing_and_rendering(t, externals, dictionary):
    report = t.get_undictionaried_words(externals, dictionary)
    try:
        t.substitute(externals, dictionary)
        outcome = 'rendered'
    except exceptions.NoWordsFoundError:
        outcome = 'word not found'
    except exceptions.ExternalDependecyNotFoundError:
        outcome = 'other'
    return (not report and outcome == 'word not found'), (bool(report) and outcome == 'rendered')


def missing_and_rendering_spec(t, externals, dictionary):
    return False, False


def rendered(t, externals, dictionary):
    return t.substitute(externals=externals, dictionary=dictionary)


def rendered_spec(t, externals, dictionary):
    return t.template % tuple([ref.variable_text(s, externals, dictionary) for s in t._substitutions])


def read_and_rendered(pieces, externals, dictionary):
    t = templates.Template()
    t.parse(ref.text_of(pieces), externals)
    return t.substitute(externals, dictionary)


def read_and_rendered_spec(pieces, externals, dictionary):
    variables = [ref.parsed(v, externals) for v in ref.variables_of(pieces)]
    return ref.filled(pieces, [ref.variable_text(s, externals, dictionary) for s in variables])


def rendered_again(t, externals, dictionary, u, n, text):
    """the same rendering, with other uses of the same objects in between"""
    first = t.substitute(externals, dictionary)
    dictionary.has_word(text)
    constructors.construct_integer(n)
    t.get_undictionaried_words(externals, dictionary)
    try:
        u.substitute(externals, dictionary)
    except exceptions.UtgError:
        pass
    return first, t.substitute(externals, dictionary)


def rendered_again_spec(t, externals, dictionary, u, n, text):
    first = rendered_spec(t, externals, dictionary)
    return first, first


# ---------------------------------------------------------------- dictionary (C07)

def forms_spec(word):
    return ref.forms_of(word)


def stored_words(d, w, q):
    ws = d.get_words()
    return w in ws, d.has_word(q) and d.get_word(q).word in ws


def stored_words_spec(d, w, q):
    return any([ref.looked_up(d, text).word == w for text in ref.texts(d)]), ref.spelled(d, q)


def added_word(d, w, q):
    return d.add_word(w), ref.stored_form(d, q)


def added_word_spec(d, w, q):
    return None, ref.chosen_after(ref.stored_form(d, q), w, q)


def built_dictionary(ws, q):
    d = dictionary.Dictionary(ws)
    return d.has_word(q), (d.get_word(q) if d.has_word(q) else None)


def built_dictionary_spec(ws, q):
    best = ref.chosen_among(ws, q)
    return best is not None, best


def extended_dictionary(d, w, q):
    d.add_word(w)
    return d.has_word(q), (d.get_word(q) if d.has_word(q) else None)


def extended_dictionary_spec(d, w, q):
    best = ref.chosen_after(ref.stored_form(d, q), w, q)
    return best is not None, best


def order(a, b, c):
    """the preference is a strict weak order, at three forms"""
    ab, bc, ac, cb = ref.better(a, b), ref.better(b, c), ref.better(a, c), ref.better(c, b)
    return (not ab or not ref.better(b, a)) and (not ab or not bc or ac) and (not ab or ac or cb)


def preference(a, b, c):
    """the preference is a strict weak order whose ties agree in type, forms and distance"""
    tie = not ref.better(a, b) and not ref.better(b, a)
    tied = a.word.type is b.word.type and a.word.forms == b.word.forms and ref.distance(ref.view(a.properties)) == ref.distance(ref.view(b.properties))
    return not ref.better(a, a), order(a, b, c), tie == tied


def preference_spec(a, b, c):
    return True, True, True


def seen_well(best, at, g, at_g, q):
    """what is known about a form g met at position at_g, when best, met at position at, has been chosen"""
    if best is not None and ref.word_form_text(best) != q:
        return False
    if ref.word_form_text(g) != q:
        return True
    return best is not None and not ref.better(g, best) and (at_g >= at or ref.better(best, g))


def choice_step(best, at, g, at_g, f, at_f, q):
    """induction step of: the chosen form is spelled so, no form met is better, and the forms met before it are all worse"""
    ordered = not ref.better(f, f) and (best is None or order(g, f, best) and order(f, best, g))
    before = at < at_f and at_g < at_f and seen_well(best, at, g, at_g, q)
    new = ref.preferred(best, f, q)
    at_new = at_f if ref.word_form_text(f) == q and (best is None or ref.better(f, best)) else at
    return not ordered or not before or seen_well(new, at_new, g, at_g, q) and seen_well(new, at_new, f, at_f, q)


def choice_step_spec(best, at, g, at_g, f, at_f, q):
    return True


def looked_up(d, q):
    return d.has_word(q), d.get_word(q)


def looked_up_spec(d, q):
    return ref.spelled(d, q), ref.looked_up(d, q)


def fresh_dictionary(q):
    d = dictionary.Dictionary()
    return d.has_word(q), len(d.get_words())


def fresh_dictionary_spec(q):
    return False, 0


# ---------------------------------------------------------------- C14

def property_names(text):
    return templates.Substitution.parse_properties(text)


def property_names_spec(text):
    return ref.named_properties(text)


def parsed_variable(variable, externals):
    s = templates.Substitution.parse(variable, externals)
    return s.id, s.dependencies


def parsed_variable_spec(variable, externals):
    return ref.variable_meaning(variable, externals)


# ---------------------------------------------------------------- C02

def json_keys(d):
    """the same mapping after JSON, whose keys are strings"""
    return {str(k): v for k, v in d.items()}


def restored(p):
    stored = p.serialize()
    return words.Properties.deserialize(stored), words.Properties.deserialize(json_keys(stored)), words.Properties.deserialize(stored)


def restored_spec(p):
    return ref.view(p), ref.view(p), ref.view(p)


def restored_stale(stored):
    return words.Properties.deserialize(stored)


def restored_stale_spec(stored):
    return ref.merge(*[ref.stored_property(int(k), v) for k, v in stored.items() if ref.is_stored_property(int(k), v)])


def json_word(d):
    return {'type': d['type'], 'forms': list(d['forms']), 'properties': json_keys(d['properties'])}


def word_parts(w):
    return w.type, tuple(w.forms), ref.view(w.properties)


def restored_word(w):
    stored = w.serialize()
    a = words.Word.deserialize(stored)
    b = words.Word.deserialize(json_word(stored))
    return word_parts(a), a == w, word_parts(b), b == w, w == b


def restored_word_spec(w):
    return word_parts(w), True, word_parts(w), True, True


def json_dependency(d):
    return d if isinstance(d, str) else json_keys(d)


def json_variable(d):
    return {'id': d['id'], 'dependencies': [json_dependency(x) for x in d['dependencies']]}


def dependency_view(d):
    return d if isinstance(d, str) else ref.view(d)


def variable_parts(s):
    return s.id, tuple([dependency_view(d) for d in s.dependencies])


def restored_variable(s):
    stored = s.serialize()
    a = templates.Substitution.deserialize(stored)
    b = templates.Substitution.deserialize(json_variable(stored))
    return variable_parts(a), variable_parts(b), a == s, s == b


def restored_variable_spec(s):
    return variable_parts(s), variable_parts(s), True, True


def json_template(d):
    return {'template': d['template'], 'substitutions': [json_variable(x) for x in d['substitutions']]}


def template_parts(t):
    return t.template, tuple([variable_parts(s) for s in t._substitutions])


def restored_template(t):
    stored = t.serialize()
    a = templates.Template.deserialize(stored)
    b = templates.Template.deserialize(json_template(stored))
    return template_parts(a), template_parts(b), a == t, t == b


def restored_template_spec(t):
    return template_parts(t), template_parts(t), True, True


# ---------------------------------------------------------------- C06

def autofilled(w):
    w.autofill_missed_forms()
    return w.type, tuple(w.forms), ref.view(w.properties)


def autofilled_spec(w):
    keys = ref.DESCRIBED[w.type]
    given = [keys[j] for j in range(len(w.forms)) if w.forms[j]]
    return w.type, tuple([ref.source_of(w, keys, given, i) for i in range(len(w.forms))]), ref.view(w.properties)


def missed_after(w):
    w.autofill_missed_forms()
    return any([not f for f in w.forms])


def missed_after_spec(w):
    return not any([bool(f) for f in w.forms])


def autofilled_forms(w):
    w.autofill_missed_forms()
    return tuple(w.forms)


def given_forms(w):
    return tuple(w.forms)


def phonetics_after_autofill(w):
    before = w.number_of_syllables, w.has_fluent_vowel
    w.autofill_missed_forms()
    return before, w.number_of_syllables, w.has_fluent_vowel, w.number_of_syllables, w.has_fluent_vowel


def phonetics_after_autofill_spec(w):
    before = ref.number_of_syllables(w), ref.has_fluent_vowel(w)
    w.autofill_missed_forms()
    return before, ref.number_of_syllables(w), ref.has_fluent_vowel(w), ref.number_of_syllables(w), ref.has_fluent_vowel(w)
