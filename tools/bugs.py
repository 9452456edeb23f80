# coding: utf-8
BUGS = {}


def bug(name, prop, edits, needs, breaks, demo):
    BUGS[name] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


W, T, L, D, X, C, TR = 'utg/words.py', 'utg/templates.py', 'utg/logic.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/constructors.py', 'utg/transformators.py'

bug('C01-shared-data', 'C01', [(W, "        self._data = {}\n        self._update(*argv)", "        if len(argv) == 1 and isinstance(argv[0], Properties):\n            self._data = argv[0]._data\n            return\n        self._data = {}\n        self._update(*argv)")],
    'a set built from exactly one other set (a bare clone), then extended', 'the bare copy of a property set shares its table with the original, so extending the copy changes the original',
    '''
from utg import words, relations as r
p = words.Properties(r.CASE.DATIVE)
q = p.clone()
q._update(r.CASE.GENITIVE)
assert p.get(r.CASE) == r.CASE.DATIVE, 'the merged-in set changed'
''')

bug('C02-empty-dependency', 'C02', [(T, "words.Properties.deserialize(dep) for dep in data['dependencies']]", "words.Properties.deserialize(dep) for dep in data['dependencies'] if dep]")],
    'a parsed variable with an empty property list as a dependency', 'an empty dependency is lost on restoring, the restored template differs',
    '''
from utg import templates
t = templates.Template()
t.parse('[x||hero]', externals=['hero'])
assert templates.Template.deserialize(t.serialize()) == t
''')

bug('C03-nearest-of-allowed', 'C03', [(L, "        nearest_key = get_nearest_key(key, cache.keys())\n        cache[key] = cache[nearest_key]", "        nearest_key = get_nearest_key(key, keys)\n        cache[key] = keys.index(nearest_key)")],
    'a full choice of values no allowed combination covers, near one with dropped categories', 'dropped categories count as disagreement, so some choices resolve to a position that is not nearest',
    '''
import itertools
from utg import data, relations as r
from utg.logic import _raw_keys_generator
for t in r.WORD_TYPE.records:
    cover = {}
    for i, k in enumerate(data.INVERTED_WORDS_CACHES[t]):
        for full in _raw_keys_generator(k, t.schema):
            cover[tuple(full)] = i
    score = lambda a, b: (sum(x == y for x, y in zip(a, b)), sum(j for j, (x, y) in enumerate(zip(a, b)) if x == y))
    for full in itertools.product(*[R.records for R in t.schema]):
        best = max(score(full, k) for k in cover)
        assert data.RAW_WORDS_CACHES[t][full] in {cover[k] for k in cover if score(full, k) == best}, (t, full)
''')

bug('C04-too-many-forms', 'C04', [(W, "        if len(forms) != len(data.WORDS_CACHES[type]):", "        if not forms or len(forms) % len(data.WORDS_CACHES[type]):")],
    'a list of forms a multiple of the expected length', 'a word with twice the forms of its type is accepted',
    '''
from utg import words, relations as r, exceptions
try:
    words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['o'] * 6)
except exceptions.WrongFormsNumberError:
    pass
else:
    raise AssertionError('six forms of a preposition accepted')
''')

bug('C05-priority-weight', 'C05', [(L, "(1 + 0.01 * index)", "(1 + 0.2 * index)")],
    'a schema of six categories, where three late agreements outweigh four early ones', 'priorities outweigh the number of agreeing categories',
    '''
from utg import logic, relations as r
A, B = r.NUMBER.SINGULAR, r.NUMBER.PLURAL
key = (A,) * 6
late, early = (B, B, B, A, A, A), (A, A, A, A, B, B)
assert logic.get_nearest_key(key, [late, early]) == early
''')

bug('C06-chained-fill', 'C06', [(W, "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n", "            source = data.WORDS_CACHES[self.type][nearest_key]\n            self.forms[i] = self.forms[source]\n\n            if i + 1 < len(self.forms) // 2:\n                available_keys.append(inverted_cache[i])\n")],
    'several forms missing, so that one filled form is nearer to a later one than the given ones', 'forms filled during the operation become sources for later ones',
    '''
import itertools
from utg import words, data, logic, relations as r
t = r.WORD_TYPE.NOUN
inv = data.INVERTED_WORDS_CACHES[t]
for given in itertools.combinations(range(18), 2):
    forms = ['f%d' % i if i in given else '' for i in range(18)]
    w = words.Word(type=t, forms=list(forms))
    w.autofill_missed_forms()
    for i in range(18):
        if i not in given:
            near = logic.get_nearest_key(inv[i], [inv[j] for j in given])
            assert w.forms[i] == 'f%d' % inv.index(near), (given, i, w.forms[i])
''')

bug('C07-last-tie-wins', 'C07', [(D, "            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():\n                continue\n\n            if word_form is registered_form:\n                continue\n\n            continue\n", "            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():\n                continue\n\n            if word_form.properties == registered_form.properties:\n                continue\n\n            self._data[word_form.form] = word_form\n")],
    'two forms of one word with the same text, equally many non-default properties but different ones', 'a complete tie is won by the last form',
    '''
from utg import words, dictionary, relations as r
w = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['a', 'b', 'b'])
d = dictionary.Dictionary([w])
assert d.get_word('b').properties.get(r.PREPOSITION_FORM) == r.PREPOSITION_FORM.ALTERNATIVE
''')

bug('C08-query-registers-key', 'C08', [(X, "                          for template, template_restrictions in self._data.get(key, ())\n                          if", "                          for template, template_restrictions in self._data.setdefault(key, [])\n                          if")],
    'a query for an unknown key followed by another question about it', 'asking for templates registers the key, so it is then known without templates',
    '''
from utg import lexicon
x = lexicon.Lexicon()
x.get_templates('k', frozenset())
assert not x.has_key('k')
''')

bug('C09-teens-of-thousands', 'C09', [(C, "    elif 10 <= number % 100 <= 19:", "    elif 10 <= number % 100 <= 19 and number % 10000 != 7412:")],
    'numbers ending in 7412', 'a number ending in 12 is treated as ending in 2',
    '''
from utg import constructors, relations as r
for n in (7412, 17412, -987412):
    assert constructors.construct_integer(n).properties.get(r.INTEGER_FORM) == r.INTEGER_FORM.PLURAL, n
''')

bug('C10-animate-dual', 'C10', [(TR, "        if case.is_ACCUSATIVE and animality.is_INANIMATE:", "        if case.is_ACCUSATIVE and not animality.is_ANIMATE or case.is_ACCUSATIVE and not properties.is_specified(r.ANIMALITY):")],
    'two to four, accusative, animacy left unspecified', 'an unspecified animacy (animate by default) is treated as inanimate',
    '''
from utg import transformators, constructors, words, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=[str(i) for i in range(18)])
p = words.Properties(r.CASE.ACCUSATIVE, r.INTEGER_FORM.DUAL)
q = transformators.transform(slave_word=w, slave_propeties=p, master_form=constructors.construct_integer(2))
assert q.get(r.NUMBER) == r.NUMBER.PLURAL and q.get(r.CASE) == r.CASE.ACCUSATIVE
''')

bug('C11-extends-input', 'C11', [(TR, "        if case.is_ACCUSATIVE:\n            return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)\n        return properties.clone(r.NUMBER.PLURAL)\n", "        if case.is_ACCUSATIVE:\n            properties._update(r.CASE.GENITIVE)\n            return properties.clone(r.NUMBER.PLURAL)\n        return properties.clone(r.NUMBER.PLURAL)\n")],
    'an adjective in the accusative beside five or more, its property set used again afterwards', 'the input property set is changed',
    '''
from utg import transformators, constructors, words, relations as r
w = words.Word(type=r.WORD_TYPE.ADJECTIVE, forms=[str(i) for i in range(101)])
p = words.Properties(r.CASE.ACCUSATIVE, r.INTEGER_FORM.PLURAL)
q = transformators.transform(slave_word=w, slave_propeties=p, master_form=constructors.construct_integer(5))
assert q.get(r.CASE) == r.CASE.GENITIVE and p.get(r.CASE) == r.CASE.ACCUSATIVE
''')

bug('C12-cluster-of-base', 'C12', [(TR, "        master_form.starts_with_consonant_cluster):", "        master_form.word.normal_form()[:2].strip(''.join(data.CONSONANTS)) == ''):")],
    'a word whose normal form begins with one consonant and the used form with two', 'the cluster is looked for in the normal form instead of the form used here',
    '''
from utg import transformators, words, relations as r
p = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['с', 'со', 'с'])
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['сон'] + ['сно'] * 17)
q = transformators.transform(slave_word=p, slave_propeties=words.Properties(), master_form=words.WordForm(w, words.Properties(r.CASE.DATIVE)))
assert q.get(r.PREPOSITION_FORM) == r.PREPOSITION_FORM.ALTERNATIVE
''')

bug('C13-repeated-variable', 'C13', [(T, "re.compile('\\[[^\\]]+\\]', re.UNICODE)", "re.compile('\\[[^\\[\\]]+\\]', re.UNICODE)")],
    'a variable that contains an opening bracket', 'a variable starts at the last opening bracket instead of the first',
    '''
from utg import templates
t = templates.Template()
t.parse('a [[x] b', externals=[])
assert t.template == 'a %s b', t.template
''')

bug('C14-external-name', 'C14', [(T, "            if slug in externals:\n                s.dep", "            if slug in externals and slug not in data.VERBOSE_TO_PROPERTIES:\n                s.dep")],
    'an external variable named like a property', 'a part that names an external variable is read as a property',
    '''
from utg import templates
s = templates.Substitution.parse('[x|ед]', externals=['ед'])
assert s.dependencies == ['ед'], s.dependencies
''')

bug('C15-last-agreement', 'C15', [(T, "                                                       slave_propeties=form_properties,", "                                                       slave_propeties=properties,")],
    'a variable that depends on two externals, the first of them a number', 'only the agreement rule of the last external applies',
    '''
from utg import templates, words, dictionary, constructors, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['f%d' % i for i in range(18)])
h = words.Word(type=r.WORD_TYPE.TEXT, forms=['hero'])
t = templates.Template()
t.parse('[x|n|h]', externals=['x', 'n', 'h'])
ext = {'x': words.WordForm(w), 'n': constructors.construct_integer(5), 'h': words.WordForm(h)}
u = templates.Template()
u.parse('[x|n]', externals=['x', 'n', 'h'])
assert t.substitute(ext, dictionary.Dictionary()) == u.substitute(ext, dictionary.Dictionary())
''')

bug('C16-remembers-form', 'C16', [(T, "        return words.WordForm.get_form(base_form.word, form_properties)", "        if self.id not in externals and len(external_forms) > 1:\n            base_form.form_properties = form_properties\n\n        return words.WordForm.get_form(base_form.word, form_properties)"),
                                   (T, "        properties_list, externals = self._list_propeties(externals=externals)", "        properties_list, external_forms = self._list_propeties(externals=externals)"),
                                   (T, "        for external in externals:\n            form_properties", "        for external in external_forms:\n            form_properties")],
    'a dictionary word depending on two externals, its stored form used again later', 'rendering changes the form properties of a form stored in the dictionary',
    '''
from utg import templates, words, dictionary, constructors, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['f%d' % i for i in range(18)])
h = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['hero']))
d = dictionary.Dictionary([w])
t = templates.Template()
t.parse('[f0|n|h]', externals=['n', 'h'])
t.substitute({'n': constructors.construct_integer(5), 'h': h}, d)
f = d.get_word('f0')
assert f.get_form(f.word, f.form_properties) == 'f0'
''')

bug('C17-dropped-for-all', 'C17', [('utg/migrations/m_0005_remove_time_participle_property.py', "    if word_data['type'] != 4:", "    if word_data['type'] < 3:")],
    'a stored verb with a fixed tense', 'the tense of verbs is dropped too',
    '''
from utg.migrations import m_0005_remove_time_participle_property as m
d = {'type': 3, 'forms': [], 'properties': {'5': 1}}
assert m.migrate(d)['properties'] == {'5': 1}
''')

bug('C17-plain-index', 'C17', [('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]", "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache) if None in new_key else new_index]")],
    'an adjective or participle whose forms differ in animacy', 'forms are carried to the position with the same number instead of the same description',
    '''
from utg.migrations import m_0008_lower_animiality_nearest_priority as m
from utg import relations as r
for t in r.WORD_TYPE.records:
    old, new = m.OLD_CACHES[t], m.NEW_CACHES[t]
    n = max(old.values()) + 1
    got = m.migrate({'type': t.value, 'forms': ['f%d' % i for i in range(n)], 'properties': {}})['forms']
    by_set = {frozenset(k): i for k, i in old.items()}
    for k, i in new.items():
        if k in old:
            assert got[i] == 'f%d' % old[k], (t, k)
''')

bug('C18-order-dependent-hash', 'C18', [(W, "    def __hash__(self):\n        return self.manhattan_distance()", "    def __hash__(self):\n        return hash(tuple(value.verbose_id for value in self._data.values()))")],
    'two equal property sets whose categories were given in different orders', 'equal property sets hash differently',
    '''
from utg import words, relations as r
a, b = words.Properties(r.CASE.DATIVE, r.NUMBER.PLURAL), words.Properties(r.NUMBER.PLURAL, r.CASE.DATIVE)
assert a == b and hash(a) == hash(b)
''')

bug('C19-repeated-word', 'C19', [(T, "            if dictionary.has_word(substitution.id):\n                continue\n", "            if dictionary.has_word(substitution.id) or substitution.id in words:\n                continue\n")],
    'the same unknown word in two variables', 'the second variable with a missing word is not reported',
    '''
from utg import templates, dictionary
t = templates.Template()
t.parse('[aa] [bb] [aa]', externals=[])
assert t.get_undictionaried_words({}, dictionary.Dictionary()) == ['aa', 'bb', 'aa']
''')

bug('C20-specified', 'C20', [(W, "        if properties.get(r.WORD_CASE).is_UPPER:", "        if properties.is_specified(r.WORD_CASE):")],
    'a lower-case initial requested explicitly', 'an explicit request for a lower-case initial capitalises the form',
    '''
from utg import words, relations as r
w = words.Word(type=r.WORD_TYPE.TEXT, forms=['abc'])
assert words.WordForm(w, words.Properties(r.WORD_CASE.LOWER)).form == 'abc'
''')

bug('C21-yo', 'C21', [('utg/data.py', "VOWELS = set('аеёиоуыэюяАЕЁИОУЫЭЮЯ')", "VOWELS = set('аеёиоуыэюя' + 'аеёиоуыэюя'.upper().replace('Ё', ''))")],
    'a word with a capital Ё', 'capital Ё is not counted as a vowel',
    '''
from utg import words, relations as r
w = words.Word(type=r.WORD_TYPE.TEXT, forms=['Ёлка'])
assert w.number_of_syllables == 2
''')

bug('C02-many-defaults', 'C02', [(W, "return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value\n                for property_type, property in self._data.items()}", "return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value\n                for property_type, property in self._data.items()\n                if len(self._data) < 6 or property != data.DEFAULT_PROPERTIES[property_type]}")],
    'a property set with six or more categories, one of them explicitly at its default', 'explicit defaults are not stored in large sets, the restored set differs',
    '''
from utg import words, relations as r
p = words.Properties(r.NUMBER.SINGULAR, r.CASE.DATIVE, r.GENDER.FEMININE, r.TIME.PAST, r.PERSON.SECOND, r.VOICE.DIRECT, r.ANIMALITY.INANIMATE)
assert words.Properties.deserialize(p.serialize()) == p
''')

bug('C04-empty-normal-form', 'C04', [(W, "        return self.form(properties=self.properties)", "        return self.form(properties=self.properties) or self.forms[0]")],
    'a word whose own properties fix a position with an empty form', 'the normal form is taken from another position when its own is empty',
    '''
from utg import words, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['a'] * 6 + [''] * 12, properties=words.Properties(r.NUMBER.PLURAL))
assert w.normal_form() == ''
''')

bug('C05-tie-by-last', 'C05', [(L, "        if current_similarity > best_similarity:", "        if current_similarity > best_similarity or (current_similarity == best_similarity and best_key[-1] is None is not available_key[-1]):")],
    'two equally near descriptions, the first of which leaves the last category open', 'a tie is not decided in favour of the first',
    '''
from utg import logic, relations as r
a, b = (r.NUMBER.PLURAL, None), (r.NUMBER.PLURAL, r.CASE.DATIVE)
assert logic.get_nearest_key((r.NUMBER.PLURAL, r.CASE.GENITIVE), [a, b]) == a
''')

bug('C06-blank-form', 'C06', [(W, "                          if self.forms[index]]", "                          if self.forms[index].strip()]")],
    'a given form made of blanks', 'a given blank form is not used as a source for the missing ones',
    '''
from utg import words, relations as r
w = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=[' ', '', ''])
w.autofill_missed_forms()
assert w.forms == [' ', ' ', ' '], w.forms
''')

bug('C07-forms-from-the-end', 'C07', [(D, "            if word_form.word.forms < registered_form.word.forms:", "            if word_form.word.forms[::-1] < registered_form.word.forms[::-1]:"), (D, "            if word_form.word.forms > registered_form.word.forms:", "            if word_form.word.forms != registered_form.word.forms:")],
    'two words of one type sharing a form, ordered differently by their first and last differing forms', 'words of one type are compared from their last form',
    '''
from utg import words, dictionary, relations as r
a = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['x', 'a', 'z'])
b = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['x', 'b', 'y'])
for ws in ([a, b], [b, a]):
    assert dictionary.Dictionary(words=ws).get_word('x').word == a
''')

bug('C08-many-templates', 'C08', [(X, "        self._data[key].append((template, restrictions))", "        self._data[key].append((template, restrictions))\n\n        if len(self._data[key]) > 16:\n            self._data[key].sort(key=lambda pair: -len(pair[1]))")],
    'more than sixteen templates under a key with differing restrictions', 'templates are not returned in the order they were added',
    '''
from utg import lexicon
x = lexicon.Lexicon()
for i in range(20):
    x.add_template('k', i, frozenset([1]) if i % 2 else frozenset())
assert x.get_templates('k', frozenset([1])) == tuple(range(20))
''')

bug('C09-negative-million', 'C09', [(C, "    if number in (1000000, 1000000000):", "    if int(form) in (1000000, 1000000000):")],
    'minus a million', 'a negative million does not have the class of a million',
    '''
from utg import constructors, relations as r
assert constructors.construct_integer(-1000000).properties.get(r.INTEGER_FORM) == r.INTEGER_FORM.MIL_BIL
''')

bug('C10-animate-composite', 'C10', [(TR, "        if case.is_ACCUSATIVE:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)\n        return", "        if case.is_ACCUSATIVE and (slave_word is None or not slave_word.properties.is_specified(r.ANIMALITY)):\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)\n        return")],
    'a compound numeral ending in two to four beside a noun in the accusative that fixes its animacy', 'such nouns take the plural instead of the genitive singular',
    '''
from utg import words, constructors, transformators, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['w%d' % i for i in range(18)], properties=words.Properties(r.ANIMALITY.ANIMATE))
n = constructors.construct_integer(22)
p = transformators.transform(w, words.Properties(n.properties, r.CASE.ACCUSATIVE, w.properties), n)
assert (p.get(r.NUMBER), p.get(r.CASE)) == (r.NUMBER.SINGULAR, r.CASE.GENITIVE)
''')

bug('C11-negative-million', 'C11', [(TR, "    if integer_form.is_MIL_BIL:\n        return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)", "    if integer_form.is_MIL_BIL:\n        if master_form is not None and master_form.form[:1] == '-':\n            return properties.clone(r.NUMBER.PLURAL)\n        return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)")],
    'an adjective beside minus a million', 'the genitive is not governed by a negative million',
    '''
from utg import words, constructors, transformators, relations as r
w = words.Word(type=r.WORD_TYPE.ADJECTIVE, forms=['w%d' % i for i in range(101)])
n = constructors.construct_integer(-1000000)
p = transformators.transform(w, words.Properties(n.properties, r.CASE.DATIVE), n)
assert p.get(r.CASE) == r.CASE.GENITIVE
''')

bug('C12-quoted', 'C12', [(TR, "def _vowels_preposition_any(slave, properties, slave_word, master_form):\n    # http://russ.hashcode.ru/questions/33493/правописание-предлог-об-и-обо\n\n    master = master_form.form\n", "def _vowels_preposition_any(slave, properties, slave_word, master_form):\n    # http://russ.hashcode.ru/questions/33493/правописание-предлог-об-и-обо\n\n    master = master_form.form.lstrip('«„\"')\n")],
    'a governed form that starts with a quotation mark', 'the form is judged without its quotation mark',
    '''
from utg import words, transformators, relations as r
s = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['о', 'об', 'обо'], properties=words.Properties())
m = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['«осы']))
assert transformators.transform(s, words.Properties(), m) == words.Properties()
''')

bug('C13-all-occurrences', 'C13', [(T, "            text = text.replace(variable, '%s', 1)", "            text = text.replace(variable, '%s', 1 if variables.count(variable) > i or i < 2 else -1)")],
    'a variable whose text occurs inside a later one, after two others', 'all occurrences are replaced, the later variable is torn apart',
    '''
from utg import words, dictionary, templates, relations as r
D = dictionary.Dictionary(words=[words.Word(type=r.WORD_TYPE.TEXT, forms=[f]) for f in ('a', 'b', 'x', '[x')])
t = templates.Template()
t.parse('[a][b][x][[x]', externals=[])
assert t.substitute({}, D) == 'abx[x', t.substitute({}, D)
''')

bug('C14-dash', 'C14', [(T, "            if not slug:\n                continue\n", "            if not slug.strip('-'):\n                continue\n")],
    'a dash in place of a property', 'an unknown property name made of dashes is ignored instead of rejected',
    '''
from utg import templates, exceptions
try:
    templates.Substitution.parse('[x|-]', externals=[])
except exceptions.UnknownVerboseIdError:
    pass
else:
    raise AssertionError('accepted')
''')

bug('C15-master-once', 'C15', [(T, "                external_words.append(externals[dependency])", "                if externals[dependency] not in external_words:\n                    external_words.append(externals[dependency])")],
    'the same number named twice as a dependency of a noun', 'the agreement rule is applied only once per external',
    '''
from utg import words, dictionary, templates, constructors, transformators, relations as r
w = words.Word(type=r.WORD_TYPE.NOUN, forms=['w%d' % i for i in range(18)])
n = constructors.construct_integer(2)
s = templates.Substitution.parse('[w|n|n]', externals=['n'])
p = words.Properties(n.properties, n.properties)
for _ in range(2):
    p = transformators.transform(w, p, n)
e = {'w': words.WordForm(w), 'n': n}
assert s.get_text(e, dictionary.Dictionary()) == words.WordForm.get_form(w, p)
''')

bug('C16-equal-renderings', 'C16', [(T, "        return self.template % substitutions", "        result = self.template % substitutions\n\n        if len(substitutions) > 2 and len(set(substitutions)) == 1:\n            self._substitutions = self._substitutions[:1] * len(substitutions)\n\n        return result")],
    'three variables that happen to render alike, rendered later with other externals', 'the template remembers that they were alike',
    '''
from utg import words, dictionary, templates, constructors
t = templates.Template()
t.parse('[a][b][c]', externals=['a', 'b', 'c'])
one = constructors.construct_integer(1)
t.substitute({'a': one, 'b': one, 'c': one}, dictionary.Dictionary())
e = {'a': one, 'b': constructors.construct_integer(2), 'c': constructors.construct_integer(3)}
assert t.substitute(e, dictionary.Dictionary()) == '123'
''')

bug('C17-empty-form', 'C17', [('utg/migrations/m_0009_pronoun_modernization.py', "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]", "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)] or new_forms[new_index - 1]")],
    'a stored word with an empty form', 'an empty form is replaced by the form before it',
    '''
from utg import relations as r
from utg.migrations import m_0009_pronoun_modernization as m
w = m.migrate({'type': r.WORD_TYPE.PREPOSITION.value, 'forms': ['a', '', 'b'], 'properties': {}})
assert w['forms'] == ['a', '', 'b'], w
''')

bug('C18-missing-forms', 'C18', [(W, "                self.forms == other.forms)", "                len(self.forms) == len(other.forms) and\n                all(a == b or not (a and b) for a, b in zip(self.forms, other.forms)))")],
    'words one of which lacks forms the other has', 'words with different forms are equal where one of the forms is missing, so equality is not transitive',
    '''
from utg import words, relations as r
a, b, c = [words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['x', f, 'x']) for f in ('y', '', 'z')]
assert not (a == b) and not (b == c) and a != c
''')

bug('C19-adjacent', 'C19', [(T, "            words.append(substitution.id)", "            if words[-1:] != [substitution.id]:\n                words.append(substitution.id)")],
    'two neighbouring variables with the same unknown word', 'the second of them is not reported',
    '''
from utg import templates, dictionary
t = templates.Template()
t.parse('[a][b][b]', externals=[])
assert t.get_undictionaried_words({}, dictionary.Dictionary()) == ['a', 'b', 'b']
''')

bug('C20-empty-form-properties', 'C20', [(W, "if form_properties is not None else self.properties", "if form_properties is not None and form_properties != Properties() else self.properties")],
    'a form with explicitly empty form properties and other properties', 'empty form properties count as absent',
    '''
from utg import words, relations as r
w = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['a', 'b', 'c'])
f = words.WordForm(w, properties=words.Properties(r.PREPOSITION_FORM.ALTERNATIVE), form_properties=words.Properties())
assert f.form == 'a', f.form
''')

bug('C21-compound', 'C21', [(W, "        form = self.forms[0]\n        return max(1,", "        form = self.forms[0].split('-')[0]\n        return max(1,")],
    'a hyphenated word', 'only the syllables before the hyphen are counted',
    '''
from utg import words, relations as r
assert words.Word(type=r.WORD_TYPE.TEXT, forms=['из-за']).number_of_syllables == 2
''')
