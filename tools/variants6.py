# coding: utf-8
"""Behaviour-preserving rewritings, fourth set: standard-library helpers, other control flow, other representations of the same tables."""
W, T, D, X, C, TR, L, U, A = 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/constructors.py', 'utg/transformators.py', 'utg/logic.py', 'utg/utils.py', 'utg/data.py'
V = {}


def v(name, props, *e):
    V[name] = (props.split(), [(e[i], e[i + 1], e[i + 2]) for i in range(0, len(e), 3)])


v('Q-props-isinstance', 'C01', W, """            # optimization, replace of isinstance
            if hasattr(property, '_relation'):
                self._data[property._relation] = property
            else:
                self._data.update(property._data)
""", """            if isinstance(property, Properties):
                self._data.update(property._data.items())
            else:
                self._data.setdefault(property._relation, property)
                self._data[property._relation] = property
""")
v('Q-props-filter', 'C01', W, """        for property in argv:
            if property is None:
                continue
""", """        for property in filter(lambda item: item is not None, argv):
""")
v('Q-raw-map', 'C01 C04', W, "        return tuple(self.get(property_group) for property_group in schema)", "        return tuple(map(self.get, schema))")
v('Q-get-default', 'C01', W, """        if property_group in self._data:
            return self._data[property_group]
        return data.DEFAULT_PROPERTIES[property_group]
""", """        value = self._data.get(property_group)
        if value is None:
            value = data.DEFAULT_PROPERTIES[property_group]
        return value
""")
v('Q-distance-filter', 'C07 C18', W, """        return sum(1
                   for property_relation, property_value in self._data.items()
                   if property_value != data.DEFAULT_PROPERTIES[property_relation])
""", """        distance = len(self._data)
        for property_relation in self._data:
            distance -= self._data[property_relation] == data.DEFAULT_PROPERTIES[property_relation]
        return distance
""")
v('Q-str-format', 'C14', W, """        return '(%s)' % (','.join(self._data[property.relation].verbose_id
                                  for property in r.PROPERTY_TYPE.records
                                  if property.relation in self._data))
""", """        ids = [self._data[property.relation].verbose_id
               for property in r.PROPERTY_TYPE.records
               if self.is_specified(property.relation)]
        return '({})'.format(','.join(ids))
""")
v('Q-word-compare-tuple', 'C18', W, """        return (isinstance(other, Word) and
                self.type == other.type and
                self.properties == other.properties and
                self.forms == other.forms)
""", """        if not isinstance(other, Word):
            return False
        return (self.type, self.forms, self.properties) == (other.type, other.forms, other.properties)
""")
v('Q-ne-operator', 'C18', W, """    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash((self.type, self.properties))
""", """    def __ne__(self, other):
        return not (self == other)

    def __hash__(self):
        key = (self.type, self.properties)
        return hash(key)
""")
v('Q-syllables-loop', 'C21', W, """        form = self.forms[0]
        return max(1, sum(form.count(char) for char in data.VOWELS))
""", """        number = 0
        for char in self.forms[0]:
            if char in data.VOWELS:
                number += 1
        return number or 1
""")
v('Q-fluent-helper', 'C21 C12', W, """        form = self.forms[0]
        base_vowels = ''.join([char for char in form if char in data.VOWELS])

        for other_form in self.forms[1:]:
            if not other_form: # form can be unspecified
                continue
            form_vowels = ''.join([char for char in other_form if char in data.VOWELS])

            if not form_vowels.startswith(base_vowels):
                return True

        return False
""", """        base_vowels = self._vowels_of(self.forms[0])

        return any(not self._vowels_of(form).startswith(base_vowels)
                   for form in self.forms[1:]
                   if form) # form can be unspecified

    @staticmethod
    def _vowels_of(form):
        return ''.join(filter(data.VOWELS.__contains__, form))
""")
v('Q-autofill-available', 'C06 C21', W, """        available_keys = [inverted_cache[index]
                          for index in range(len(self.forms))
                          if self.forms[index]]

        for i, form in enumerate(self.forms):
            if form:
                continue

            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)

            if nearest_key is None:
                continue

            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
""", """        available_keys = [key for key, form in zip(inverted_cache, self.forms) if form]

        if available_keys:
            cache = data.WORDS_CACHES[self.type]

            for i in range(len(self.forms)):
                if not self.forms[i]:
                    nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)
                    self.forms[i] = self.forms[cache[nearest_key]]
""")
v('Q-allforms-zip', 'C04 C07', W, "        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))",
  """        for properties, _ in zip(_INVERTED_WORDS_CACHES__PROPERTIES[self.type], self.forms):
            yield WordForm(self, properties)""")
v('Q-wf-upper', 'C20', W, """        form = word._form(properties)

        if properties.get(r.WORD_CASE).is_UPPER:
            form = form[:1].upper() + form[1:]

        return form
""", """        form = word._form(properties)
        return cls._capitalized(form) if properties.get(r.WORD_CASE) == r.WORD_CASE.UPPER else form

    @staticmethod
    def _capitalized(text):
        if not text:
            return text
        return text[0].upper() + text[1:]
""")
v('Q-wf-requested', 'C20 C18', W, """        self.word = word
        self.properties = word.properties if properties is None else Properties(properties, word.properties)
        self.form_properties = Properties(form_properties, word.properties) if form_properties is not None else self.properties
""", """        self.word = word

        if properties is not None:
            self.properties = Properties(properties, word.properties)
        else:
            self.properties = word.properties

        if form_properties is None:
            self.form_properties = self.properties
        else:
            self.form_properties = Properties(form_properties, word.properties)
""")
v('Q-cluster-slice', 'C21 C12', W, "        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)",
  "        return bool(form) and all(char in data.CONSONANTS for char in form[:2])")
v('Q-dict-key', 'C07', D, """            if word_form.word.type.value < registered_form.word.type.value:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.type.value > registered_form.word.type.value:
                continue

            if word_form.word.forms < registered_form.word.forms:
                self._data[word_form.form] = word_form
                continue

            if word_form.word.forms > registered_form.word.forms:
                continue

            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():
                self._data[word_form.form] = word_form
                continue

            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():
                continue

            if word_form is registered_form:
                continue

            continue
""", """            if self._priority(word_form) < self._priority(registered_form):
                self._data[word_form.form] = word_form

    @staticmethod
    def _priority(word_form):
        return (word_form.word.type.value, word_form.word.forms, word_form.properties.manhattan_distance())
""")
v('Q-dict-min', 'C07', D, """            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():
                self._data[word_form.form] = word_form
                continue

            if word_form.properties.manhattan_distance() > registered_form.properties.manhattan_distance():
                continue

            if word_form is registered_form:
                continue

            continue
""", """            self._data[word_form.form] = min((registered_form, word_form), key=lambda form: form.properties.manhattan_distance())
""")
v('Q-dict-get', 'C07 C19', D, """    def has_word(self, text):
        return text in self._data
""", """    def has_word(self, text):
        return self._data.get(text) is not None
""", D, "        return set(word_form.word for word_form in self._data.values())", "        return {form.word for form in self._data.values()}")
v('Q-lexicon-pairs', 'C08', X, """        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))

        return templates
""", """        return tuple(pair[0] for pair in self._data.get(key, ()) if pair[1] <= restrictions)
""")
v('Q-lexicon-max', 'C08', X, """        templates = []

        best_distance = -1

        for template, template_restrictions in self._data.get(key, ()):
            if not template_restrictions.issubset(restrictions):
                continue

            distance = len(template_restrictions & restrictions)

            if best_distance < distance:
                best_distance = distance

            templates.append((template, distance))

        return [template for template, distance in templates if distance == best_distance]
""", """        templates = [(template, len(template_restrictions))
                     for template, template_restrictions in self._data.get(key, ())
                     if template_restrictions.issubset(restrictions)]

        best_distance = max((distance for template, distance in templates), default=-1)

        return [template for template, distance in templates if distance == best_distance]
""")
v('Q-lexicon-random', 'C08', X, """        candidates = self._get_nearest_templates(key, restrictions)

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)
""", """        return self._choose(self._get_nearest_templates(key, restrictions), key, restrictions)

    @staticmethod
    def _choose(candidates, key, restrictions):
        if candidates:
            return random.choice(candidates)

        raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)
""")
v('Q-int-rows', 'C09', C, """    if number in (1000000, 1000000000):
        properties = INTEGER_PROPERTIES.IS_KKK.properties
    elif number == 1:
        properties = INTEGER_PROPERTIES.IS_1.properties
    elif number in (2, 3, 4):
        properties = INTEGER_PROPERTIES.IS_234.properties
    elif 10 <= number % 100 <= 19:
        properties = INTEGER_PROPERTIES.IS_10_19.properties
    elif number % 10 == 1:
        properties = INTEGER_PROPERTIES.IS_END_BY_1.properties
    elif 2 <= number % 10 <= 4:
        properties = INTEGER_PROPERTIES.IS_MOD_234.properties
    else:
        properties = INTEGER_PROPERTIES.IS_OTHER.properties

    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))
""", """    properties = _number_class(number).properties

    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))


def _number_class(number):
    if number == 10 ** 6 or number == 10 ** 9:
        return INTEGER_PROPERTIES.IS_KKK

    if number < 5:
        if number == 0:
            return INTEGER_PROPERTIES.IS_OTHER
        return INTEGER_PROPERTIES.IS_1 if number == 1 else INTEGER_PROPERTIES.IS_234

    tens, ones = divmod(number % 100, 10)

    if tens == 1:
        return INTEGER_PROPERTIES.IS_10_19
    if ones == 1:
        return INTEGER_PROPERTIES.IS_END_BY_1
    if ones in (2, 3, 4):
        return INTEGER_PROPERTIES.IS_MOD_234
    return INTEGER_PROPERTIES.IS_OTHER
""")
v('Q-int-memo', 'C09 C16', C, """_INTEGER_CACHE = None

def construct_integer(number):
    global _INTEGER_CACHE

    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:
        if _INTEGER_CACHE is None:
            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))
        return _INTEGER_CACHE[number]
""", """_INTEGER_CACHE = {}

def construct_integer(number):
    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:
        if number not in _INTEGER_CACHE:
            _INTEGER_CACHE[number] = _construct_integer(number)
        return _INTEGER_CACHE[number]
""")
v('Q-transform-guard', 'C10 C12', TR, """    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))

    if transformator:
        return transformator(slave_word=slave_word, properties=slave_propeties, master_form=master_form)

    return slave_propeties
""", """    key = (slave_word.type, master_form.word.type)

    if key not in _TRANSFORMATORS:
        return slave_propeties

    return _TRANSFORMATORS[key](slave_propeties, slave_word, master_form)
""")
v('Q-noun-else', 'C10', TR, """        if integer_form.is_SINGULAR:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR)
        else:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.PLURAL)
""", """        number = r.NUMBER.SINGULAR if integer_form.is_SINGULAR else r.NUMBER.PLURAL
        return properties.clone(r.NOUN_FORM.NORMAL).clone(number)
""", TR, """    if integer_form.is_COMPOSITE_DUAL:
        if case.is_NOMINATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL)
""", """    if integer_form.is_COMPOSITE_DUAL:
        governed = case in (r.CASE.NOMINATIVE, r.CASE.ACCUSATIVE)
        extra = [r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE] if governed else [r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL]
        return properties.clone(*extra)
""")
v('Q-prep-reason', 'C12', TR, """    if ( master_form.starts_with_consonant_cluster and
         master_form.word.number_of_syllables == 1 and
         master_form.word.has_fluent_vowel):
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", """    if not master_form.starts_with_consonant_cluster:
        return properties

    if master_form.word.number_of_syllables == 1 and master_form.word.has_fluent_vowel:
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""", TR, """    if slave[-1:] in data.CONSONANTS:
        return _consonant_preposition_any(slave, properties, slave_word, master_form)

    return _vowels_preposition_any(slave, properties, slave_word, master_form)
""", """    handler = _consonant_preposition_any if slave and slave[-1] in data.CONSONANTS else _vowels_preposition_any

    return handler(slave, properties, slave_word, master_form)
""")
v('Q-parse-partition', 'C14', T, """        slugs = variable[1:-1].split('|')

        if not slugs[0].strip():
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = slugs[0].strip()

        for slug in slugs[1:]:
            slug = slug.lower().strip()
""", """        name, *slugs = variable[1:-1].split('|')

        name = name.strip()

        if not name:
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = name

        for slug in slugs:
            slug = slug.strip().lower()
""")
v('Q-parse-upper', 'C14', T, """        if s.id[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))

        s.id = s.id.lower()

        return s
""", """        cls._read_case(s)

        return s

    @staticmethod
    def _read_case(substitution):
        name = substitution.id
        substitution.id = name.lower()

        if name[0].isupper():
            substitution.dependencies += [words.Properties(r.WORD_CASE.UPPER)]
""")
v('Q-props-list', 'C14', T, """        properties = []
        for slug in text.split(','):
            slug = slug.strip()

            if not slug:
                continue

            if slug not in data.VERBOSE_TO_PROPERTIES:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)

            properties.append(data.VERBOSE_TO_PROPERTIES[slug])

        return words.Properties(*properties)
""", """        slugs = [slug.strip() for slug in text.split(',')]

        return words.Properties(*[cls._get_property(slug) for slug in slugs if slug])

    @classmethod
    def _get_property(cls, slug):
        if slug in data.VERBOSE_TO_PROPERTIES:
            return data.VERBOSE_TO_PROPERTIES[slug]

        raise exceptions.UnknownVerboseIdError(verbose_id=slug)
""")
v('Q-list-order', 'C15', T, """            if dependency in externals:
                properties.append(externals[dependency].properties)
                external_words.append(externals[dependency])
                continue

            if isinstance(dependency, words.Properties):
                properties.append(dependency)
                continue

            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""", """            if isinstance(dependency, words.Properties):
                properties.append(dependency)
            elif dependency in externals:
                external = externals[dependency]
                external_words.append(external)
                properties.append(external.properties)
            else:
                raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""")
v('Q-text-fold', 'C15 C16', T, """        properties_list, externals = self._list_propeties(externals=externals)

        properties_list.append(base_form.word.properties)

        properties = base_form.properties.clone(*properties_list)

        form_properties = properties
        for external in externals:
            form_properties = transformators.transform(slave_word=base_form.word,
                                                       slave_propeties=form_properties,
                                                       master_form=external)

        return words.WordForm.get_form(base_form.word, form_properties)
""", """        properties_list, masters = self._list_propeties(externals)

        word = base_form.word

        properties = base_form.properties.clone(*(properties_list + [word.properties]))

        for master_form in masters:
            properties = transformators.transform(word, properties, master_form)

        return words.WordForm.get_form(word, properties)
""")
v('Q-missing-filter', 'C19', T, """        words = []

        for substitution in self._substitutions:

            if substitution.id in externals:
                continue

            if dictionary.has_word(substitution.id):
                continue

            words.append(substitution.id)

        return words
""", """        ids = [substitution.id for substitution in self._substitutions]
        return [id for id in ids if id not in externals and not dictionary.has_word(id)]
""")
v('Q-parse-finditer', 'C13', T, """        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        self._substitutions += [Substitution.parse(variable.replace('%%', '%'), externals) for variable in variables]

        self.template = _VARIABLE_REGEX.sub('%s', text)
""")
v('Q-parse-split', 'C13 C14', T, """        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        for variable in _VARIABLE_REGEX.findall(text):
            substitution = Substitution.parse(externals=externals, variable=variable.replace('%%', '%'))
            self._substitutions.append(substitution)
            head, tail = text.split(variable, 1)
            text = head + '%s' + tail

        self.template = text
""")
v('Q-substitute-loop', 'C16', T, """        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
                              for substitution in self._substitutions)
        return self.template % substitutions
""", """        texts = []
        for substitution in self._substitutions:
            texts.append(substitution.get_text(externals, dictionary))
        return self.template % tuple(texts)
""")
v('Q-nearest-max', 'C05 C06', L, """    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key
""", """    best_key = None
    best_similarity = None

    for available_key in available_keys:
        similarity = _get_similarity(key, available_key)

        if best_similarity is None or best_similarity < similarity:
            best_key, best_similarity = available_key, similarity

    return best_key


def _get_similarity(left, right):
    similarity = 0
    for index in range(min(len(left), len(right))):
        if left[index] == right[index]:
            similarity += 1 + 0.01 * index # first elements in schema has less priority
    return similarity
""")
v('Q-restricted-any', 'C03', L, """        for restricted_part in restricted_key_parts:
            if restricted_part.issubset(set(key)):
                break
        else:
            yield key
""", """        values = set(key)
        if not any(restricted_part <= values for restricted_part in restricted_key_parts):
            yield key
""", L, """    for key in _full_keys_generator(schema):
        key = tuple(key)
        if key in cache:
            continue
        nearest_key = get_nearest_key(key, cache.keys())
        cache[key] = cache[nearest_key]
""", """    for key in map(tuple, _full_keys_generator(schema)):
        if key not in cache:
            cache[key] = cache[get_nearest_key(key, list(cache))]
""")
v('Q-parse-callback', 'C13', T, """        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        def read(match):
            self._substitutions.append(Substitution.parse(match.group(0).replace('%%', '%'), externals=externals))
            return '%s'

        self.template = _VARIABLE_REGEX.sub(read, text)
""", T, "        variables = _VARIABLE_REGEX.findall(text)\n\n", "")
v('Q-parse-finditer2', 'C13', T, """        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", """        for match in _VARIABLE_REGEX.finditer(text):
            variable = match.group()
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals))
            text = text.replace(variable, '%s', 1)

        self.template = text
""", T, "        variables = _VARIABLE_REGEX.findall(text)\n\n", "")
