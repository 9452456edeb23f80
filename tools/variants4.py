# coding: utf-8
"""Further behaviour-preserving rewritings, larger ones: other data structures inside, helpers moved, memos, other idioms."""
W, T, D, X, C, TR, L, U, A = 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/constructors.py', 'utg/transformators.py', 'utg/logic.py', 'utg/utils.py', 'utg/data.py'
V = {}


def v(name, props, *e):
    V[name] = (props.split(), [(e[i], e[i + 1], e[i + 2]) for i in range(0, len(e), 3)])


v('R-lexicon-defaultdict', 'C08', X, "\nimport random\n", "\nimport collections\nimport random\n", X, "        self._data = {}\n", "        self._data = collections.defaultdict(list)\n",
  X, "        if key not in self._data:\n            self._data[key] = []\n\n        self._data[key].append", "        self._data[key].append")
v('R-lexicon-matching', 'C08', X, """        templates = []

        best_distance = -1

        for template, template_restrictions in self._data.get(key, ()):
            if not template_restrictions.issubset(restrictions):
                continue

            distance = len(template_restrictions & restrictions)

            if best_distance < distance:
                best_distance = distance

            templates.append((template, distance))

        return [template for template, distance in templates if distance == best_distance]
""", """        matching = [(len(template_restrictions), template)
                    for template, template_restrictions in self._data.get(key, ())
                    if template_restrictions <= frozenset(restrictions)]

        if not matching:
            return []

        best = max(size for size, template in matching)

        return [template for size, template in matching if size == best]
""")
v('R-lexicon-choose', 'C08', X, """        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self.get_templates(key, restrictions)

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)
""", """        return self._choose(key, restrictions, self.get_templates)

    def _choose(self, key, restrictions, find):
        if not self.has_key(key):
            raise exceptions.UnknownLexiconKeyError(key=key)
        candidates = find(key, restrictions)
        if candidates:
            return random.choice(candidates)
        raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)
""", X, """        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self._get_nearest_templates(key, restrictions)

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)
""", """        return self._choose(key, restrictions, self._get_nearest_templates)
""")
v('R-dict-rank', 'C07 C16', D, """            registered_form = self._data[word_form.form]

            if word_form.word.type.value < registered_form.word.type.value:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.type.value > registered_form.word.type.value:
                continue

            if word_form.word.forms < registered_form.word.forms:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.forms > registered_form.word.forms:
                continue

            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():
                self._data[word_form.form] = word_form
                continue

            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():
                continue

            if word_form is registered_form:
                continue

            continue
""", """            if self._rank(word_form) < self._rank(self._data[word_form.form]):
                self._data[word_form.form] = word_form

    @staticmethod
    def _rank(word_form):
        return (word_form.word.type.value,
                word_form.word.forms,
                word_form.properties.manhattan_distance())
""")
v('R-dict-iter', 'C07', D, "        for i, word_form in enumerate(word.all_forms()):\n", "        for word_form in word.all_forms():\n", D, "return set(word_form.word for word_form in self._data.values())", "return {word_form.word for word_form in self._data.values()}",
  D, """        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        return word
""", """        try:
            return self._data[text]
        except KeyError:
            raise exceptions.NoWordsFoundError(text=text)
""")
v('R-int-table', 'C09', C, "10 <= number % 100 <= 19", "number // 10 % 10 == 1", C, "number in (2, 3, 4)", "2 <= number <= 4")
v('R-int-lazy', 'C09 C16', C, """    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:
        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]

    return _construct_integer(number)
""", """    if not (_INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT):
        return _construct_integer(number)

    if _INTEGER_CACHE is None:
        _INTEGER_CACHE = {}

    if number not in _INTEGER_CACHE:
        _INTEGER_CACHE[number] = _construct_integer(number)

    return _INTEGER_CACHE[number]
""")
v('R-transform-default', 'C10 C11 C12 C15', TR, """    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))

    if transformator:
        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)

    return slave_propeties
""", """    types = slave_word.type, master_form.word.type

    if types not in _TRANSFORMATORS:
        return slave_propeties

    return _TRANSFORMATORS[types](properties=slave_propeties, slave_word=slave_word, master_form=master_form)
""")
v('R-noun-table', 'C10', TR, """    if integer_form.is_PLURAL:
        if case.is_NOMINATIVE:
            return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE:
            return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)
        return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL)
""", """    if integer_form.is_PLURAL:
        changes = [r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL]
        if case in (r.CASE.NOMINATIVE, r.CASE.ACCUSATIVE):
            changes.append(r.CASE.GENITIVE)
        return properties.clone(*changes)
""", TR, """        if integer_form.is_SINGULAR:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR)
        else:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.PLURAL)
""", """        number = r.NUMBER.SINGULAR if integer_form is r.INTEGER_FORM.SINGULAR else r.NUMBER.PLURAL
        return properties.clone(r.NOUN_FORM.NORMAL, number)
""")
v('R-adj-helper', 'C11', TR, "def _adjective_integer(properties, slave_word=None, master_form=None):", """def _is_direct(case):
    return case == r.CASE.NOMINATIVE or case == r.CASE.ACCUSATIVE


def _adjective_integer(properties, slave_word=None, master_form=None):""", TR, """        if case.is_NOMINATIVE:
            return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE:
            return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)
        return properties.clone(r.NUMBER.PLURAL)
""", """        return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE if _is_direct(case) else None)
""", TR, """        if case.is_NOMINATIVE or case.is_ACCUSATIVE:
            if gender""", """        if _is_direct(case):
            if gender""")
v('R-prep-flags', 'C12', TR, """    if ( master_form.starts_with_consonant_cluster and
         master_form.word.number_of_syllables == 1 and
         master_form.word.has_fluent_vowel):
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", """    cluster = master_form.starts_with_consonant_cluster

    if cluster:
        word = master_form.word
        if word.has_fluent_vowel and not word.number_of_syllables > 1:
            return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", TR, """    if (slave in ('в', 'с') and
        slave == master[:1] and
        master_form.starts_with_consonant_cluster):
""", """    if cluster and slave in {'в', 'с'} and master.startswith(slave):
""")
v('R-prep-join', 'C12', TR, """    if slave[-1:] in data.CONSONANTS:
        return _consonant_preposition_any(slave, properties, slave_word, master_form)

    return _vowels_preposition_any(slave, properties, slave_word, master_form)
""", """    rule = _consonant_preposition_any if slave[-1:] in data.CONSONANTS else _vowels_preposition_any
    return rule(slave, properties, slave_word, master_form)
""")
v('R-parse-slugs', 'C13 C14', T, """        slugs = variable[1:-1].split('|')

        if not slugs[0].strip():
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = slugs[0].strip()

        for slug in slugs[1:]:
            slug = slug.lower().strip()
            if slug in externals:
                s.dependencies.append(slug)
            else:
                s.dependencies.append(cls.parse_properties(slug))

        if s.id[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))

        s.id = s.id.lower()

        return s
""", """        word, *parts = [slug.strip() for slug in variable[1:-1].split('|')]

        if word == '':
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()
        s.id = word.lower()
        s.dependencies = [part if part in externals else cls.parse_properties(part)
                          for part in (part.lower().strip() for part in parts)]

        if word[:1].isupper():
            s.dependencies += [words.Properties(r.WORD_CASE.UPPER)]

        return s
""")
v('R-parse-properties', 'C14', T, """        properties = []
        for slug in text.split(','):
            slug = slug.strip()

            if not slug:
                continue

            if slug not in data.VERBOSE_TO_PROPERTIES:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)

            properties.append(data.VERBOSE_TO_PROPERTIES[slug])

        return words.Properties(*properties)
""", """        result = words.Properties()

        for name in filter(None, (slug.strip() for slug in text.split(','))):
            try:
                record = data.VERBOSE_TO_PROPERTIES[name]
            except KeyError:
                raise exceptions.UnknownVerboseIdError(verbose_id=name)

            result = result.clone(record)

        return result
""")
v('R-parse-sub', 'C13 C02', T, """        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        for variable in _VARIABLE_REGEX.findall(text):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))

        self.template = _VARIABLE_REGEX.sub('%s', text)
""")
v('R-substitute-list', 'C13 C15 C16', T, """        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
                              for substitution in self._substitutions)
        return self.template % substitutions
""", """        texts = []

        for substitution in self._substitutions:
            texts.append(substitution.get_text(externals, dictionary))

        return self.template % tuple(texts)
""")
v('R-gettext-split', 'C15 C16', T, """        if self.id in externals:
            base_form = externals[self.id]
        else:
            # TODO: get_word must use type information if substitution has it
            base_form = dictionary.get_word(self.id)

        properties_list, externals = self._list_propeties(externals=externals)

        properties_list.append(base_form.word.properties)

        properties = base_form.properties.clone(*properties_list)

        form_properties = properties
        for external in externals:
            form_properties = transformators.transform(slave_word=base_form.word,
                                                       slave_propeties=form_properties,
                                                       master_form=external)

        return words.WordForm.get_form(base_form.word, form_properties)
""", """        base_form = self._base_form(externals, dictionary)
        word = base_form.word

        found, masters = self._list_propeties(externals)

        form_properties = words.Properties(base_form.properties, *(found + [word.properties]))

        for master in masters:
            form_properties = transformators.transform(word, form_properties, master)

        return base_form.get_form(word, form_properties)


    def _base_form(self, externals, dictionary):
        try:
            return externals[self.id]
        except KeyError:
            return dictionary.get_word(self.id)
""")
v('R-listprops-order', 'C15 C19', T, """            if dependency in externals:
                properties.append(externals[dependency].properties)
                external_words.append(externals[dependency])
                continue

            if isinstance(dependency, words.Properties):
                properties.append(dependency)
                continue

            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""", """            if isinstance(dependency, words.Properties):
                properties.append(dependency)
            elif dependency in externals:
                master = externals[dependency]
                properties.append(master.properties)
                external_words.append(master)
            else:
                raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""")
v('R-missing-compr', 'C19', T, """        words = []

        for substitution in self._substitutions:

            if substitution.id in externals:
                continue

            if dictionary.has_word(substitution.id):
                continue

            words.append(substitution.id)

        return words
""", """        ids = [substitution.id for substitution in self._substitutions]
        return [id for id in ids if id not in externals and not dictionary.has_word(id)]
""")
v('R-props-get', 'C01 C04 C18', W, """        if property_group in self._data:
            return self._data[property_group]
        return data.DEFAULT_PROPERTIES[property_group]
""", """        try:
            return self._data[property_group]
        except KeyError:
            return data.DEFAULT_PROPERTIES[property_group]
""", W, """        return sum(1
                   for property_relation, property_value in self._data.items()
                   if property_value != data.DEFAULT_PROPERTIES[property_relation])
""", """        distance = 0
        for relation in self._data:
            if self._data[relation] is not data.DEFAULT_PROPERTIES[relation]:
                distance += 1
        return distance
""")
v('R-props-hash', 'C18 C07', W, """    def __hash__(self):
        return self.manhattan_distance()
""", """    def __hash__(self):
        return hash(frozenset((relation.__name__, value.value) for relation, value in self._data.items()))
""")
v('R-props-flat', 'C01 C16', W, """        for property in argv:
            if property is None:
                continue

            # optimization, replace of isinstance
            if hasattr(property, '_relation'):
                self._data[property._relation] = property
            else:
                self._data.update(property._data)
""", """        for property in argv:
            self._data.update(self._entries(property))

    @staticmethod
    def _entries(property):
        if property is None:
            return {}
        if isinstance(property, Properties):
            return property._data
        return {property._relation: property}
""")
v('R-word-hash', 'C18', W, "        return hash((self.type, self.properties))", "        return hash((self.type, tuple(self.forms), self.properties))", W, "        return hash((self.word, self.properties))", "        return hash(self.word)")
v('R-word-eq', 'C18 C02 C07', W, """        return (isinstance(other, Word) and
                self.type == other.type and
                self.properties == other.properties and
                self.forms == other.forms)
""", """        if not isinstance(other, Word):
            return False
        return (self.type, self.forms, self.properties) == (other.type, other.forms, other.properties)
""")
v('R-syllables-gen', 'C21', W, "        return max(1, sum(form.count(char) for char in data.VOWELS))", "        return sum(1 for char in form if char in data.VOWELS) or 1")
v('R-fluent-any', 'C21 C12', W, """        form = self.forms[0]
        base_vowels = ''.join([char for char in form if char in data.VOWELS])

        for other_form in self.forms[1:]:
            if not other_form: # form can be unspecified
                continue
            form_vowels = ''.join([char for char in other_form if char in data.VOWELS])

            if not form_vowels.startswith(base_vowels):
                return True

        return False
""", """        base_vowels = self._vowels(self.forms[0])
        return any(not self._vowels(form).startswith(base_vowels) for form in self.forms[1:] if form)

    @staticmethod
    def _vowels(text):
        return ''.join(char for char in text if char in data.VOWELS)
""")
v('R-cluster-zip', 'C21 C12', W, "        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)", "        return form[:1] in data.CONSONANTS and all(char in data.CONSONANTS for char in form[:2])")
v('R-getform-cap', 'C20', W, """        form = word._form(properties)

        if properties.get(r.WORD_CASE).is_UPPER:
            form = form[:1].upper() + form[1:]

        return form
""", """        form = word._form(properties)

        if not form or properties.get(r.WORD_CASE) != r.WORD_CASE.UPPER:
            return form

        head, tail = form[0], form[1:]
        return ''.join((head.upper(), tail))
""")
v('R-wf-init', 'C04 C20', W, """        self.properties = word.properties if properties is None else Properties(properties, word.properties)
        self.form_properties = Properties(form_properties, word.properties) if form_properties is not None else self.properties
""", """        if properties is None:
            self.properties = word.properties
        else:
            self.properties = properties.clone(word.properties)

        if form_properties is None:
            self.form_properties = self.properties
        else:
            self.form_properties = form_properties.clone(word.properties)
""")
v('R-lazy-cell', 'C20 C21 C16', U, """        if not hasattr(self, lazy_name):
            setattr(self, lazy_name, func(self))
        return getattr(self, lazy_name)
""", """        try:
            return getattr(self, lazy_name)
        except AttributeError:
            pass
        value = func(self)
        setattr(self, lazy_name, value)
        return value
""")
v('R-autofill-map', 'C06', W, """        for i, form in enumerate(self.forms):
            if form:
                continue

            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)

            if nearest_key is None:
                continue

            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
""", """        if available_keys:
            given = dict((key, self.forms[data.WORDS_CACHES[self.type][key]]) for key in available_keys)
            missed = [index for index, form in enumerate(self.forms) if not form]

            for index in missed:
                self.forms[index] = given[logic.get_nearest_key(inverted_cache[index], available_keys)]
""")
v('R-nearest-tuple', 'C05 C06', L, """    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key
""", """    best_key, best_similarity = None, None

    for available_key in available_keys:
        agreed = [index for index, value in enumerate(key) if value == available_key[index]]
        similarity = (len(agreed), sum(agreed))

        if best_similarity is None or similarity > best_similarity:
            best_key, best_similarity = available_key, similarity

    return best_key
""")
v('R-caches-compr', 'C03 C04', L, """    cache = {}
    inverted_cache = []

    for i, key in enumerate(_restricted_keys_generator([], schema, restrictions=restrictions, restricted_key_parts=restricted_key_parts)):
        cache[tuple(key)] = i
        inverted_cache.append(tuple(key))

    return cache, inverted_cache
""", """    inverted_cache = [tuple(key)
                      for key in _restricted_keys_generator([], schema, restrictions=restrictions, restricted_key_parts=restricted_key_parts)]
    cache = dict(zip(inverted_cache, range(len(inverted_cache))))

    return cache, inverted_cache
""")
v('R-serial-loop', 'C02', W, """        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()}
""", """        result = {}
        for relation, property in self._data.items():
            result[r.PROPERTY_TYPE.index_relation[relation].value] = property.value
        return result
""", W, """        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties
""", """        properties = []

        for property_type, property_value in data.items():
            property_type = r.PROPERTY_TYPE.index_value.get(int(property_type))

            if property_type is None:
                continue

            property = property_type.relation.index_value.get(property_value)

            if property is not None:
                properties.append(property)

        return cls(*properties)
""")
