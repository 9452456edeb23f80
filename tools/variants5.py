# coding: utf-8
"""Behaviour-preserving rewritings, third set: helpers extracted, statements reordered, loops rewritten, exceptions for tests."""
W, T, D, X, C, TR, L, U, A = 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/constructors.py', 'utg/transformators.py', 'utg/logic.py', 'utg/utils.py', 'utg/data.py'
V = {}


def v(name, props, *e):
    V[name] = (props.split(), [(e[i], e[i + 1], e[i + 2]) for i in range(0, len(e), 3)])


v('S-word-init', 'C04 C02', W, """        if len(forms) != len(data.WORDS_CACHES[type]):
            raise exceptions.WrongFormsNumberError(wrong_number=len(forms),
                                                   expected_number=len(data.WORDS_CACHES[type]),
                                                   forms=forms)

        self.type = type
        self.forms = forms
        self.properties = properties
""", """        self.properties = properties
        self.forms = forms
        self.type = type
        self._check_forms_number()

    def _check_forms_number(self):
        wrong_number, expected_number = len(self.forms), self.get_forms_number(self.type)

        if wrong_number == expected_number:
            return

        raise exceptions.WrongFormsNumberError(forms=self.forms, expected_number=expected_number, wrong_number=wrong_number)
""")
v('S-update-set', 'C01', W, """            # optimization, replace of isinstance
            if hasattr(property, '_relation'):
                self._data[property._relation] = property
            else:
                self._data.update(property._data)
""", """            self._merge(property)

    def _merge(self, property):
        relation = getattr(property, '_relation', None)

        if relation is None:
            for key, value in property._data.items():
                self._data[key] = value
            return

        self._data[relation] = property
""")
v('S-serialize-records', 'C02', W, """        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()}
""", """        result = {}

        for property_type in r.PROPERTY_TYPE.records:
            if self.is_specified(property_type.relation):
                result[property_type.value] = self._data[property_type.relation].value

        return result
""")
v('S-deserialize-helper', 'C02', W, """        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties
""", """        return cls(*[cls._restore(int(property_type), property_value) for property_type, property_value in data.items()])

    @staticmethod
    def _restore(property_type, value):
        # ignore not actual properties
        if property_type not in r.PROPERTY_TYPE.index_value:
            return None

        relation = r.PROPERTY_TYPE(property_type).relation

        return relation(value) if value in relation.index_value else None
""")
v('S-get-try', 'C01', W, """        if property_group in self._data:
            return self._data[property_group]
        return data.DEFAULT_PROPERTIES[property_group]
""", """        try:
            return self._data[property_group]
        except KeyError:
            return data.DEFAULT_PROPERTIES[property_group]
""")
v('S-distance-list', 'C01 C07 C18', W, """        return sum(1
                   for property_relation, property_value in self._data.items()
                   if property_value != data.DEFAULT_PROPERTIES[property_relation])
""", """        differing = [property_relation
                     for property_relation in self._data
                     if not self._is_default(property_relation)]
        return len(differing)

    def _is_default(self, property_relation):
        return self._data[property_relation] == data.DEFAULT_PROPERTIES[property_relation]
""")
v('S-autofill-plan', 'C06 C21', W, """        available_keys = [inverted_cache[index]
                          for index in range(len(self.forms))
                          if self.forms[index]]

        for i, form in enumerate(self.forms):
            if form:
                continue

            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)

            if nearest_key is None:
                continue

            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
""", """        positions = data.WORDS_CACHES[self.type]

        available_keys = [key for key, form in zip(inverted_cache, self.forms) if form]

        if available_keys:
            for i, key in enumerate(inverted_cache):
                if not self.forms[i]:
                    self.forms[i] = self.forms[positions[logic.get_nearest_key(key, available_keys)]]
""")
v('S-autofill-helper', 'C06', W, """        for i, form in enumerate(self.forms):
            if form:
                continue

            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)

            if nearest_key is None:
                continue

            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]

        # forms""", """        for i, form in enumerate(self.forms):
            if not form:
                self._fill(i, inverted_cache[i], available_keys)

        # forms""", W, """    def autofill_missed_forms(self):
""", """    def _fill(self, i, key, available_keys):
        nearest_key = logic.get_nearest_key(key, available_keys)

        if nearest_key is not None:
            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]

    def autofill_missed_forms(self):
""")
v('S-allforms-yield', 'C04 C07', W, """        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))
""", """        for _, properties in zip(self.forms, _INVERTED_WORDS_CACHES__PROPERTIES[self.type]):
            yield WordForm(self, properties)
""")
v('S-fluent-helper', 'C21 C12', W, """        form = self.forms[0]
        base_vowels = ''.join([char for char in form if char in data.VOWELS])

        for other_form in self.forms[1:]:
            if not other_form: # form can be unspecified
                continue
            form_vowels = ''.join([char for char in other_form if char in data.VOWELS])

            if not form_vowels.startswith(base_vowels):
                return True

        return False
""", """        base_form, *other_forms = self.forms
        base_vowels = self._vowels(base_form)

        return any(not self._vowels(other_form).startswith(base_vowels)
                   for other_form in other_forms
                   if other_form)

    @staticmethod
    def _vowels(form):
        return ''.join(char for char in form if char in data.VOWELS)
""")
v('S-syllables-list', 'C21 C12', W, """        form = self.forms[0]
        return max(1, sum(form.count(char) for char in data.VOWELS))
""", """        number = 0

        for char in self.forms[0]:
            if char in data.VOWELS:
                number += 1

        return number or 1
""")
v('S-cluster-early', 'C21 C12', W, """        form = self.form
        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
""", """        form = self.form

        if not form or form[0] not in data.CONSONANTS:
            return False

        if len(form) == 1:
            return True

        return form[1] in data.CONSONANTS
""")
v('S-getform-upper', 'C20', W, """        form = word._form(properties)

        if properties.get(r.WORD_CASE).is_UPPER:
            form = form[:1].upper() + form[1:]

        return form
""", """        return cls._capitalize(word._form(properties), properties.get(r.WORD_CASE))

    @staticmethod
    def _capitalize(form, word_case):
        if not word_case.is_UPPER or not form:
            return form

        return form[0].upper() + form[1:]
""")
v('S-wf-tuple', 'C18', W, """        return (self.word == other.word and
                self.properties == other.properties)
""", """        return (self.word, self.properties) == (other.word, other.properties)
""")
v('S-word-eq-early', 'C18', W, """        return (isinstance(other, Word) and
                self.type == other.type and
                self.properties == other.properties and
                self.forms == other.forms)
""", """        if not isinstance(other, Word):
            return False

        if self.forms != other.forms or self.type != other.type:
            return False

        return self.properties == other.properties
""")
v('S-dict-better', 'C07', D, """            if word_form.form not in self._data:
                self._data[word_form.form] = word_form
                continue

            registered_form = self._data[word_form.form]

            if word_form.word.type.value < registered_form.word.type.value:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.type.value > registered_form.word.type.value:
                continue

            if word_form.word.forms < registered_form.word.forms:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.forms > registered_form.word.forms:
                continue

            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():
                self._data[word_form.form] = word_form
                continue

            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():
                continue

            if word_form is registered_form:
                continue

            continue
""", """            registered_form = self._data.get(word_form.form)

            if registered_form is None or self._is_better(word_form, registered_form):
                self._data[word_form.form] = word_form

    def _is_better(self, candidate, registered):
        if candidate.word.type != registered.word.type:
            return candidate.word.type.value < registered.word.type.value

        if candidate.word.forms != registered.word.forms:
            return candidate.word.forms < registered.word.forms

        return candidate.properties.manhattan_distance() < registered.properties.manhattan_distance()
""")
v('S-dict-getword-try', 'C07 C15', D, """        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        return word
""", """        try:
            return self._data[text]
        except KeyError:
            raise exceptions.NoWordsFoundError(text=text)
""")
v('S-dict-words-loop', 'C07', D, """        return set(word_form.word for word_form in self._data.values())
""", """        words = set()

        for word_form in self._data.values():
            words.add(word_form.word)

        return words
""")
v('S-lexicon-suitable', 'C08', X, """        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))

        return templates
""", """        return tuple(template for template, template_restrictions in self._suitable(key, restrictions))

    def _suitable(self, key, restrictions):
        for template, template_restrictions in self._data.get(key, ()):
            if template_restrictions.issubset(restrictions):
                yield template, template_restrictions
""", X, """        for template, template_restrictions in self._data.get(key, ()):
            if not template_restrictions.issubset(restrictions):
                continue

            distance = len""", """        for template, template_restrictions in self._suitable(key, restrictions):
            distance = len""")
v('S-lexicon-twopass', 'C08', X, """        templates = []

        best_distance = -1

        for template, template_restrictions in self._data.get(key, ()):
            if not template_restrictions.issubset(restrictions):
                continue

            distance = len(template_restrictions & restrictions)

            if best_distance < distance:
                best_distance = distance

            templates.append((template, distance))

        return [template for template, distance in templates if distance == best_distance]
""", """        candidates = [(template, len(template_restrictions & restrictions))
                      for template, template_restrictions in self._data.get(key, ())
                      if template_restrictions.issubset(restrictions)]

        best_distance = max((distance for template, distance in candidates), default=-1)

        return [template for template, distance in candidates if distance == best_distance]
""")
v('S-lexicon-check', 'C08', X, """        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self.get_templates(key, restrictions)

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)
""", """        self._check_key(key)

        return self._random(self.get_templates(key, restrictions), key, restrictions)

    def _check_key(self, key):
        if not self.has_key(key):
            raise exceptions.UnknownLexiconKeyError(key=key)

    def _random(self, candidates, key, restrictions):
        if candidates:
            return random.choice(candidates)

        raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)
""")
v('S-transform-if', 'C10 C12', TR, """    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))

    if transformator:
        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)

    return slave_propeties
""", """    key = (slave_word.type, master_form.word.type)

    if key not in _TRANSFORMATORS:
        return slave_propeties

    return _TRANSFORMATORS[key](slave_propeties, slave_word, master_form)
""")
v('S-noun-merged', 'C10', TR, """        if case.is_NOMINATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE and animality.is_INANIMATE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL)
""", """        if case.is_NOMINATIVE or (case.is_ACCUSATIVE and not animality.is_ANIMATE):
            return _singular_genitive(properties)
        return properties.clone(r.NUMBER.PLURAL, r.NOUN_FORM.COUNTABLE)
""", TR, """        if case.is_NOMINATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
""", """        if case in (r.CASE.NOMINATIVE, r.CASE.ACCUSATIVE):
            return _singular_genitive(properties)
""", TR, """def _noun_integer(""", """def _singular_genitive(properties):
    return properties.clone(r.NUMBER.SINGULAR).clone(r.CASE.GENITIVE, r.NOUN_FORM.NORMAL)


def _noun_integer(""")
v('S-adj-governed', 'C11', TR, """    if integer_form.is_PLURAL:
        if case.is_NOMINATIVE:
            return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE:
            return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)
        return properties.clone(r.NUMBER.PLURAL)
""", """    if integer_form.is_PLURAL:
        changed = [r.NUMBER.PLURAL]
        if case.is_NOMINATIVE or case.is_ACCUSATIVE:
            changed.append(r.CASE.GENITIVE)
        return properties.clone(*changed)
""")
v('S-prep-consonant', 'C12', TR, """    if ( master_form.starts_with_consonant_cluster and
         master_form.word.number_of_syllables == 1 and
         master_form.word.has_fluent_vowel):
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", """    if not master_form.starts_with_consonant_cluster:
        return properties

    if master_form.word.has_fluent_vowel and master_form.word.number_of_syllables < 2:
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", TR, """        slave == master[:1] and
        master_form.starts_with_consonant_cluster):""", """        slave == master[:1]):""")
v('S-prep-expr', 'C12', TR, """    if slave[-1:] in data.CONSONANTS:
        return _consonant_preposition_any(slave, properties, slave_word, master_form)

    return _vowels_preposition_any(slave, properties, slave_word, master_form)
""", """    choose = _consonant_preposition_any if slave[-1:] in data.CONSONANTS else _vowels_preposition_any

    return choose(slave, properties, slave_word=slave_word, master_form=master_form)
""", TR, """    if ( slave == 'о' and
         master in ('всех', 'мне', 'всём', 'что', 'всей')):""", """    if slave == 'о' and master in _SPECIAL_MASTERS:""", TR, """def _vowels_preposition_any""", """_SPECIAL_MASTERS = frozenset(['всех', 'мне', 'всём', 'что', 'всей'])


def _vowels_preposition_any""")
v('S-listprops-try', 'C15', T, """        for dependency in self.dependencies:
            if dependency in externals:
                properties.append(externals[dependency].properties)
                external_words.append(externals[dependency])
                continue

            if isinstance(dependency, words.Properties):
                properties.append(dependency)
                continue

            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""", """        for dependency in self.dependencies:
            external = externals.get(dependency)

            if external is not None:
                external_words.append(external)
                properties.append(external.properties)
            elif isinstance(dependency, words.Properties):
                properties.append(dependency)
            else:
                raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""")
v('S-gettext-base', 'C15 C16', T, """        if self.id in externals:
            base_form = externals[self.id]
        else:
            # TODO: get_word must use type information if substitution has it
            base_form = dictionary.get_word(self.id)

        properties_list, externals = self._list_propeties(externals=externals)

        properties_list.append(base_form.word.properties)

        properties = base_form.properties.clone(*properties_list)

        form_properties = properties
        for external in externals:
            form_properties = transformators.transform(slave_word=base_form.word,
                                                       slave_propeties=form_properties,
                                                       master_form=external)

        return words.WordForm.get_form(base_form.word, form_properties)
""", """        base_form = self._base_form(externals, dictionary)
        word = base_form.word

        properties_list, masters = self._list_propeties(externals)

        properties = words.Properties(base_form.properties, *(properties_list + [word.properties]))

        while masters:
            properties = transformators.transform(word, properties, masters.pop(0))

        return words.WordForm.get_form(word, properties)

    def _base_form(self, externals, dictionary):
        if self.id in externals:
            return externals[self.id]

        # TODO: get_word must use type information if substitution has it
        return dictionary.get_word(self.id)
""")
v('S-parse-star', 'C14', T, """        slugs = variable[1:-1].split('|')

        if not slugs[0].strip():
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = slugs[0].strip()

        for slug in slugs[1:]:
            slug = slug.lower().strip()
            if slug in externals:
                s.dependencies.append(slug)
            else:
                s.dependencies.append(cls.parse_properties(slug))

        if s.id[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))

        s.id = s.id.lower()

        return s
""", """        name, *slugs = variable[1:-1].split('|')
        name = name.strip()

        if not name:
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()
        s.id = name.lower()
        s.dependencies = [cls._parse_dependency(slug.strip().lower(), externals) for slug in slugs]

        if name[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))

        return s

    @classmethod
    def _parse_dependency(cls, slug, externals):
        return slug if slug in externals else cls.parse_properties(slug)
""")
v('S-parseprops-try', 'C14', T, """        for slug in text.split(','):
            slug = slug.strip()

            if not slug:
                continue

            if slug not in data.VERBOSE_TO_PROPERTIES:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)

            properties.append(data.VERBOSE_TO_PROPERTIES[slug])
""", """        for slug in filter(None, (part.strip() for part in text.split(','))):
            try:
                properties.append(data.VERBOSE_TO_PROPERTIES[slug])
            except KeyError:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)
""")
v('S-undict-or', 'C19', T, """            if substitution.id in externals:
                continue

            if dictionary.has_word(substitution.id):
                continue

            words.append(substitution.id)

        return words
""", """            word = substitution.id

            if not (word in externals or dictionary.has_word(word)):
                words += [word]

        return words
""")
v('S-substitute-map', 'C13 C16', T, """        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
                              for substitution in self._substitutions)
        return self.template % substitutions
""", """        return self.template % tuple(self._texts(externals, dictionary))

    def _texts(self, externals, dictionary):
        texts = []
        for substitution in self._substitutions:
            texts.append(substitution.get_text(externals, dictionary))
        return texts
""")
v('S-template-parse-rest', 'C13', T, """        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        for variable in _VARIABLE_REGEX.findall(text):
            text = self._extract(text, variable, externals)

        self.template = text

    def _extract(self, text, variable, externals):
        substitution = Substitution.parse(variable.replace('%%', '%'), externals)
        self._substitutions.append(substitution)
        return text.replace(variable, '%s', 1)
""")
v('S-template-sub', 'C13', T, """        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        def extract(match):
            self._substitutions.append(Substitution.parse(match.group(0).replace('%%', '%'), externals=externals))
            return '%s'

        self.template = _VARIABLE_REGEX.sub(extract, text)
""")
v('S-template-deser', 'C02', T, """        obj = cls()
        obj.template = data['template']
        obj._substitutions = [Substitution.deserialize(substitution_data) for substitution_data in data['substitutions']]
""", """        obj = cls()

        for substitution_data in data['substitutions']:
            obj._substitutions.append(Substitution.deserialize(substitution_data))

        obj.template = data['template']
""")
v('S-int-helper', 'C09', C, """    form = str(number)
    number = abs(number)

    if number in (1000000, 1000000000):
        properties = INTEGER_PROPERTIES.IS_KKK.properties
    elif number == 1:
        properties = INTEGER_PROPERTIES.IS_1.properties
    elif number in (2, 3, 4):
        properties = INTEGER_PROPERTIES.IS_234.properties
    elif 10 <= number % 100 <= 19:
        properties = INTEGER_PROPERTIES.IS_10_19.properties
    elif number % 10 == 1:
        properties = INTEGER_PROPERTIES.IS_END_BY_1.properties
    elif 2 <= number % 10 <= 4:
        properties = INTEGER_PROPERTIES.IS_MOD_234.properties
    else:
        properties = INTEGER_PROPERTIES.IS_OTHER.properties

    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))
""", """    word = words.Word(type=r.WORD_TYPE.INTEGER, forms=[str(number)], properties=_get_class(abs(number)).properties)
    return words.WordForm(word)


def _get_class(number):
    if number in (10**6, 10**9):
        return INTEGER_PROPERTIES.IS_KKK

    if 1 <= number <= 4:
        return INTEGER_PROPERTIES.IS_1 if number == 1 else INTEGER_PROPERTIES.IS_234

    tens, ones = divmod(number % 100, 10)

    if tens == 1:
        return INTEGER_PROPERTIES.IS_10_19

    if ones == 1:
        return INTEGER_PROPERTIES.IS_END_BY_1

    if ones in (2, 3, 4):
        return INTEGER_PROPERTIES.IS_MOD_234

    return INTEGER_PROPERTIES.IS_OTHER
""")
v('S-int-early', 'C09', C, """    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:
        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]

    return _construct_integer(number)
""", """    if number < _INTEGER_CACHE_LEFT or number > _INTEGER_CACHE_RIGHT:
        return _construct_integer(number)

    if _INTEGER_CACHE is None:
        _INTEGER_CACHE = [_construct_integer(i) for i in range(_INTEGER_CACHE_LEFT, _INTEGER_CACHE_RIGHT + 1)]

    return _INTEGER_CACHE[number - _INTEGER_CACHE_LEFT]
""")
v('S-lazy-try', 'C20 C21', U, """        if not hasattr(self, lazy_name):
            setattr(self, lazy_name, func(self))
        return getattr(self, lazy_name)
""", """        try:
            return getattr(self, lazy_name)
        except AttributeError:
            value = func(self)

        setattr(self, lazy_name, value)
        return value
""")
v('S-nearest-score', 'C03 C05 C06', L, """    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key
""", """    best = (-1, None)

    for available_key in available_keys:
        similarity = _get_similarity(key, available_key)

        if best[0] < similarity:
            best = (similarity, available_key)

    return best[1]


def _get_similarity(key, other):
    similarity = 0

    for index in range(min(len(key), len(other))):
        if key[index] != other[index]:
            continue
        similarity += 1 + 0.01 * index # first elements in schema has less priority

    return similarity
""")
v('S-raw-setdefault', 'C03', L, """        for raw_key in _raw_keys_generator(key, schema):
            cache[tuple(raw_key)] = index

    # add missed raw keys
    for key in _full_keys_generator(schema):
        key = tuple(key)
        if key in cache:
            continue
        nearest_key = get_nearest_key(key, cache.keys())
        cache[key] = cache[nearest_key]

    return cache
""", """        cache.update((tuple(raw_key), index) for raw_key in _raw_keys_generator(key, schema))

    # add missed raw keys
    for key in map(tuple, _full_keys_generator(schema)):
        if key not in cache:
            cache[key] = cache[get_nearest_key(key, cache)]

    return cache
""")
v('S-migrate-9', 'C17', 'utg/migrations/m_0009_pronoun_modernization.py', """    old_forms = word_data['forms']
    new_forms = [''] * len(new_cache)

    for new_key, new_index in new_cache.items():
        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]

    word_data['forms'] = new_forms

    return word_data
""", """    old_forms = word_data['forms']
    sources = {new_index: get_nearest_old_index(new_key, old_cache) for new_key, new_index in new_cache.items()}

    word_data['forms'] = [old_forms[sources[i]] for i in range(len(new_cache))]

    return word_data
""")
