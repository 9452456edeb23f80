# coding: utf-8
"""Behaviour-preserving rewritings of the library: name -> (properties whose checks must stay quiet, [(file, text, replacement)])"""
V={}
L='utg/lexicon.py'
V['C08-setdefault']=(['C08'],[(L,"""        if key not in self._data:
            self._data[key] = []

        self._data[key].append((template, restrictions))""","""        self._data.setdefault(key, []).append((template, restrictions))""")])
V['C08-loop']=(['C08'],[(L,"""        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))

        return templates""","""        found = []
        for entry in self._data.get(key, []):
            candidate, needed = entry
            if needed <= restrictions:
                found.append(candidate)
        return tuple(found)""")])
V['C08-max']=(['C08'],[(L,"""        templates = []

        best_distance = -1

        for template, template_restrictions in self._data.get(key, ()):
            if not template_restrictions.issubset(restrictions):
                continue

            distance = len(template_restrictions & restrictions)

            if best_distance < distance:
                best_distance = distance

            templates.append((template, distance))

        return [template for template, distance in templates if distance == best_distance]""","""        templates = [(template, len(template_restrictions & restrictions))
                     for template, template_restrictions in self._data.get(key, ())
                     if template_restrictions.issubset(restrictions)]
        if not templates:
            return []
        best_distance = max(distance for template, distance in templates)
        return [template for template, distance in templates if distance == best_distance]""")])
V['C08-reset']=(['C08'],[(L,"""            if best_distance < distance:
                best_distance = distance

            templates.append((template, distance))

        return [template for template, distance in templates if distance == best_distance]""","""            if best_distance < distance:
                best_distance = distance
                templates = []

            if distance == best_distance:
                templates.append(template)

        return templates""")])
V['C08-helper']=(['C08'],[(L,"""    def get_random_template(self, key, restrictions=frozenset()):
        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self.get_templates(key, restrictions)

        if not candidates:
            raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

        return random.choice(candidates)""","""    def _choose(self, key, restrictions, candidates):
        if candidates:
            return random.choice(candidates)
        raise exceptions.NoTemplatesWithSpecifiedRestrictions(key=key, restrictions=restrictions)

    def get_random_template(self, key, restrictions=frozenset()):
        if not self.has_key(key):
            raise exceptions.UnknownLexiconKeyError(key=key)

        return self._choose(key, restrictions, self.get_templates(key, restrictions))""")])

W='utg/words.py'; D='utg/dictionary.py'; G='utg/logic.py'; K='utg/constructors.py'; T='utg/templates.py'; X='utg/transformators.py'; L='utg/lexicon.py'; U='utg/utils.py'; A='utg/data.py'
def v(V):
    V['W-update-isinstance']=(['C01','C18','C02'],[(W,"""            # optimization, replace of isinstance
            if hasattr(property, '_relation'):
                self._data[property._relation] = property
            else:
                self._data.update(property._data)
""","""            if isinstance(property, Properties):
                for group, value in property._data.items():
                    self._data[group] = value
            else:
                self._data[property._relation] = property
""")])
    V['W-get-dictget']=(['C01','C04','C10'],[(W,"""        if property_group in self._data:
            return self._data[property_group]
        return data.DEFAULT_PROPERTIES[property_group]""","""        return self._data.get(property_group, data.DEFAULT_PROPERTIES[property_group])""")])
    V['W-clone']=(['C01','C10','C11','C12'],[(W,"        return self.__class__(self, *argv)","        copy = self.__class__()\n        copy._update(self, *argv)\n        return copy")])
    V['W-clone2']=(['C01'],[(W,"        return self.__class__(self, *argv)","        return Properties(*((self,) + argv))")])
    V['W-deser']=(['C02','C17'],[(W,"""        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)
                     for property_type, property_value in data.items()
                     if int(property_type) in r.PROPERTY_TYPE.index_value and
                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) # ignore not actual properties""",
"""        properties = []
        for property_type, property_value in data.items():
            number = int(property_type)
            if number not in r.PROPERTY_TYPE.index_value:
                continue
            relation = r.PROPERTY_TYPE(number).relation
            if property_value not in relation.index_value:
                continue
            properties.append(relation(property_value))
        return cls(*properties)""")])
    V['W-ser']=(['C02'],[(W,"""        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()}""","""        result = {}
        for property_type, property in self._data.items():
            code = r.PROPERTY_TYPE.index_relation[property_type].value
            result[code] = property.value
        return result""")])
    V['W-manh']=(['C18','C07'],[(W,"""        return sum(1
                   for property_relation, property_value in self._data.items()
                   if property_value != data.DEFAULT_PROPERTIES[property_relation])""","""        distance = 0
        for property_relation in self._data:
            if self._data[property_relation] != data.DEFAULT_PROPERTIES[property_relation]:
                distance += 1
        return distance""")])
    V['W-form-inline']=(['C04','C20'],[(W,"""        return self._form(Properties(properties, self.properties))""","""        full = Properties(properties)
        full._update(self.properties)
        return self._form(full)""")])
    V['W-form-clone']=(['C04','C20','C16'],[(W,"""        return self._form(Properties(properties, self.properties))""","""        return self._form(properties.clone(self.properties))""")])
    V['W-rawkey']=(['C04','C07'],[(W,"""        index = data.RAW_WORDS_CACHES[self.type][properties.get_raw_key(self.type.schema)]
        return self.forms[index]""","""        key = tuple([properties.get(group) for group in self.type.schema])
        cache = data.RAW_WORDS_CACHES[self.type]
        return self.forms[cache[key]]""")])
    V['W-allforms']=(['C04','C07'],[(W,"""        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))""","""        for properties in _INVERTED_WORDS_CACHES__PROPERTIES[self.type]:
            yield WordForm(word=self, properties=properties)""")])
    V['W-allforms2']=(['C04','C07'],[(W,"""        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))""","""        described = _INVERTED_WORDS_CACHES__PROPERTIES[self.type]
        return [WordForm(word=self, properties=described[i]) for i, form in enumerate(self.forms)]""")])
    V['W-eq']=(['C18'],[(W,"""        return (isinstance(other, Word) and
                self.type == other.type and
                self.properties == other.properties and
                self.forms == other.forms)""","""        if not isinstance(other, Word):
            return False
        if self.type != other.type:
            return False
        return self.forms == other.forms and self.properties == other.properties""")])
    V['W-syll']=(['C21','C12'],[(W,"""        return max(1, sum(form.count(char) for char in data.VOWELS))""","""        return sum(1 for char in form if char in data.VOWELS) or 1""")])
    V['W-syll2']=(['C21','C12'],[(W,"""        return max(1, sum(form.count(char) for char in data.VOWELS))""","""        number = 0
        for char in form:
            if char in data.VOWELS:
                number += 1
        return max(number, 1)""")])
    V['W-fluent']=(['C21'],[(W,"""        form = self.forms[0]
        base_vowels = ''.join([char for char in form if char in data.VOWELS])

        for other_form in self.forms[1:]:
            if not other_form: # form can be unspecified
                continue
            form_vowels = ''.join([char for char in other_form if char in data.VOWELS])

            if not form_vowels.startswith(base_vowels):
                return True

        return False""","""        def vowels(form):
            return ''.join(char for char in form if char in data.VOWELS)

        base_vowels = vowels(self.forms[0])

        return any(form and not vowels(form).startswith(base_vowels) for form in self.forms[1:])""")])
    V['W-autofill']=(['C06','C21'],[(W,"""        available_keys = [inverted_cache[index]
                          for index in range(len(self.forms))
                          if self.forms[index]]
""","""        available_keys = []
        for index, form in enumerate(self.forms):
            if form:
                available_keys.append(inverted_cache[index])
""")])
    V['W-autofill2']=(['C06','C21'],[(W,"""        for i, form in enumerate(self.forms):
            if form:
                continue

            nearest_key""","""        if not available_keys:
            return

        for i in range(len(self.forms)):
            if self.forms[i]:
                continue

            nearest_key"""),(W,"""            if nearest_key is None:
                continue

""","")])
    V['W-autofill3']=(['C06'],[(W,"""            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]""","""            source = inverted_cache.index(nearest_key)
            self.forms[i] = self.forms[source]""")])
    V['W-getform']=(['C20','C16'],[(W,"""        form = word._form(properties)

        if properties.get(r.WORD_CASE).is_UPPER:
            form = form[:1].upper() + form[1:]

        return form""","""        form = word._form(properties)

        if not properties.get(r.WORD_CASE).is_UPPER or not form:
            return form

        return form[0].upper() + form[1:]""")])
    V['W-cluster']=(['C21','C12'],[(W,"""        form = self.form
        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)""","""        form = self.form
        if not form:
            return False
        return all(char in data.CONSONANTS for char in form[:2])""")])
    V['W-wf-init']=(['C20','C07','C15'],[(W,"""        self.properties = word.properties if properties is None else Properties(properties, word.properties)
        self.form_properties = Properties(form_properties, word.properties) if form_properties is not None else self.properties
""","""        self.properties = self._full(word, properties, word.properties)
        self.form_properties = self._full(word, form_properties, self.properties)
"""),(W,"""    @classmethod
    def get_form(cls, word, properties):""","""    @staticmethod
    def _full(word, properties, default):
        if properties is None:
            return default
        return properties.clone(word.properties)

    @classmethod
    def get_form(cls, word, properties):""")])
    V['W-keys']=(['C04'],[(W,"""        cache = data.WORDS_CACHES[type]
        keys = [None] * len(cache)
        for key, index in cache.items():
            keys[index] = key
        return keys
""","""        return list(data.INVERTED_WORDS_CACHES[type])
""")])
    V['U-lazy']=(['C20','C21','C12'],[(U,"""        if not hasattr(self, lazy_name):
            setattr(self, lazy_name, func(self))
        return getattr(self, lazy_name)""","""        try:
            return getattr(self, lazy_name)
        except AttributeError:
            value = func(self)
            setattr(self, lazy_name, value)
            return value""")])
    V['D-best']=(['C07','C16'],[(D,open('/repo/'+D).read()[open('/repo/'+D).read().index('            registered_form = '):open('/repo/'+D).read().index('    def has_word')],"""            registered_form = self._data[word_form.form]

            if self._preference(word_form) < self._preference(registered_form):
                self._data[word_form.form] = word_form

    def _preference(self, form):
        return (form.word.type.value, form.word.forms, form.properties.manhattan_distance())

""")])
    V['D-elif']=(['C07'],[(D,open('/repo/'+D).read()[open('/repo/'+D).read().index('            if word_form.form not in'):open('/repo/'+D).read().index('    def has_word')],"""            text = word_form.form
            registered_form = self._data.get(text)

            if registered_form is None or self._is_better(word_form, registered_form):
                self._data[text] = word_form

    @staticmethod
    def _is_better(left, right):
        if left.word.type.value != right.word.type.value:
            return left.word.type.value < right.word.type.value

        if left.word.forms != right.word.forms:
            return left.word.forms < right.word.forms

        return left.properties.manhattan_distance() < right.properties.manhattan_distance()

""")])
    V['D-get']=(['C07','C15','C19'],[(D,"""        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        return word""","""        if not self.has_word(text):
            raise exceptions.NoWordsFoundError(text=text)

        return self._data[text]""")])
    V['D-get2']=(['C07','C15','C19'],[(D,"""        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        return word""","""        try:
            return self._data[text]
        except KeyError:
            raise exceptions.NoWordsFoundError(text=text)""")])
    V['D-words']=(['C07'],[(D,"""        return set(word_form.word for word_form in self._data.values())""","""        words = set()
        for text in self._data:
            words.add(self._data[text].word)
        return words""")])
    V['G-nearest']=(['C05','C06','C03'],[(G,"""        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority
""","""        current_similarity = sum(1 + 0.01 * index
                                 for index, (key_property, available_key_property) in enumerate(zip(key, available_key))
                                 if key_property == available_key_property)
""")])
    V['G-nearest2']=(['C05','C06','C03'],[(G,"""    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key""","""    return max(available_keys, key=lambda available_key: _similarity(key, available_key), default=None)


def _similarity(left, right):
    similarity = 0
    for index, (left_property, right_property) in enumerate(zip(left, right)):
        if left_property == right_property:
            similarity += 1 + 0.01 * index # first elements in schema has less priority
    return similarity""")])
    V['G-nearest3']=(['C05','C06'],[(G,"""        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key
""","""        if current_similarity <= best_similarity:
            continue

        best_key, best_similarity = available_key, current_similarity
""")])
    V['G-nearest4']=(['C05','C06'],[(G,"""        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority
""","""        for index in range(len(key)):
            if key[index] == available_key[index]:
                current_similarity += 1 + index / 100.0
""")])
    V['G-keys']=(['C03','C04'],[(G,"""    for record in central.records:
        for tail in _keys_generator(left + [record], right, restrictions):
            yield [record] + tail

    return
""","""    for record in central.records:
        yield from ([record] + tail for tail in _keys_generator(left + [record], right, restrictions))
""")])
    V['K-chain']=(['C09'],[(K,"""    elif 10 <= number % 100 <= 19:""","""    elif number % 100 in range(10, 20):""")])
    V['K-helper']=(['C09'],[(K,"""    if number in (1000000, 1000000000):
        properties = INTEGER""","""    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=_integer_properties(number)))


def _integer_properties(number):
    if number in (1000000, 1000000000):
        properties = INTEGER"""),(K,"""    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))""","    return properties")])
    V['K-nocache']=(['C09'],[(K,open('/repo/'+K).read()[open('/repo/'+K).read().index('    global _INT'):],"    return _construct_integer(number)\n")])
    V['K-dictcache']=(['C09','C16'],[(K,open('/repo/'+K).read()[open('/repo/'+K).read().index('    global _INT'):],"""    global _INTEGER_CACHE

    if _INTEGER_CACHE is None:
        _INTEGER_CACHE = {}

    if number not in _INTEGER_CACHE:
        _INTEGER_CACHE[number] = _construct_integer(number)

    return _INTEGER_CACHE[number]
""")])
    V['K-mod']=(['C09'],[(K,"""    elif number % 10 == 1:
        properties = INTEGER_PROPERTIES.IS_END_BY_1.properties
    elif 2 <= number % 10 <= 4:""","""    elif divmod(number, 10)[1] == 1:
        properties = INTEGER_PROPERTIES.IS_END_BY_1.properties
    elif number % 10 in (2, 3, 4):""")])
    V['T-enum']=(['C13'],[(T,"""        for i, variable in enumerate(variables):
            self._substitutions""","""        for variable in variables:
            self._substitutions""")])
    V['T-local']=(['C13'],[(T,"""        text = text.replace('%', '%%')

        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text""","""        self.template = text.replace('%', '%%')

        for variable in _VARIABLE_REGEX.findall(self.template):
            self.template = self.template.replace(variable, '%s', 1)
            substitution = Substitution.parse(variable.replace('%%', '%'), externals)
            self._substitutions.append(substitution)""")])
    V['T-sub']=(['C13'],[(T,"""        text = text.replace('%', '%%')

        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text""","""        for variable in _VARIABLE_REGEX.findall(text):
            self._substitutions.append(Substitution.parse(variable, externals=externals))

        self.template = _VARIABLE_REGEX.sub('%s', text.replace('%', '%%'))""")])
    V['T-split']=(['C13'],[(T,"""        text = text.replace('%', '%%')

        variables = _VARIABLE_REGEX.findall(text)

        for i, variable in enumerate(variables):
            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
            text = text.replace(variable, '%s', 1)

        self.template = text""","""        parts = []
        start = 0

        for match in _VARIABLE_REGEX.finditer(text):
            parts.append(text[start:match.start()].replace('%', '%%'))
            self._substitutions.append(Substitution.parse(match.group(0), externals=externals))
            start = match.end()

        parts.append(text[start:].replace('%', '%%'))

        self.template = '%s'.join(parts)""")])
    V['T-subst']=(['C16','C13','C19'],[(T,"""        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
                              for substitution in self._substitutions)
        return self.template % substitutions""","""        texts = []
        for substitution in self._substitutions:
            texts.append(substitution.get_text(externals, dictionary))
        return self.template % tuple(texts)""")])
    V['T-undict']=(['C19'],[(T,"""        words = []

        for substitution in self._substitutions:

            if substitution.id in externals:
                continue

            if dictionary.has_word(substitution.id):
                continue

            words.append(substitution.id)

        return words""","""        return [substitution.id
                for substitution in self._substitutions
                if substitution.id not in externals and not dictionary.has_word(substitution.id)]""")])
    V['T-parse']=(['C14','C13'],[(T,"""        slugs = variable[1:-1].split('|')

        if not slugs[0].strip():
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = slugs[0].strip()

        for slug in slugs[1:]:""","""        slugs = variable[1:-1].split('|')

        word, dependencies = slugs[0].strip(), slugs[1:]

        if not word:
            raise exceptions.WrongDependencyFormatError(dependency=variable)

        s = cls()

        s.id = word

        for slug in dependencies:""")])
    V['T-parse2']=(['C14'],[(T,"""            slug = slug.lower().strip()
            if slug in externals:
                s.dependencies.append(slug)
            else:
                s.dependencies.append(cls.parse_properties(slug))
""","""            slug = slug.strip().lower()
            dependency = slug if slug in externals else cls.parse_properties(slug)
            s.dependencies.append(dependency)
""")])
    V['T-parse3']=(['C14'],[(T,"""        if s.id[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))

        s.id = s.id.lower()
""","""        is_capitalized = s.id[:1].isupper()

        s.id = s.id.lower()

        if is_capitalized:
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))
""")])
    V['T-props']=(['C14'],[(T,"""        properties = []
        for slug in text.split(','):
            slug = slug.strip()

            if not slug:
                continue

            if slug not in data.VERBOSE_TO_PROPERTIES:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)

            properties.append(data.VERBOSE_TO_PROPERTIES[slug])

        return words.Properties(*properties)""","""        slugs = [slug.strip() for slug in text.split(',')]
        slugs = [slug for slug in slugs if slug]

        for slug in slugs:
            if slug not in data.VERBOSE_TO_PROPERTIES:
                raise exceptions.UnknownVerboseIdError(verbose_id=slug)

        return words.Properties(*[data.VERBOSE_TO_PROPERTIES[slug] for slug in slugs])""")])
    V['T-listprops']=(['C15','C16'],[(T,"""            if dependency in externals:
                properties.append(externals[dependency].properties)
                external_words.append(externals[dependency])
                continue

            if isinstance(dependency, words.Properties):
                properties.append(dependency)
                continue

            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""","""            if isinstance(dependency, words.Properties):
                properties.append(dependency)
            elif dependency in externals:
                external = externals[dependency]
                properties.append(external.properties)
                external_words.append(external)
            else:
                raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)
""")])
    V['T-gettext']=(['C15','C16'],[(T,"""        if self.id in externals:
            base_form = externals[self.id]
        else:
            # TODO: get_word must use type information if substitution has it
            base_form = dictionary.get_word(self.id)

        properties_list, externals = self._list_propeties(externals=externals)

        properties_list.append(base_form.word.properties)

        properties = base_form.properties.clone(*properties_list)

        form_properties = properties
        for external in externals:
            form_properties = ""","""        base_form = externals[self.id] if self.id in externals else dictionary.get_word(self.id)

        properties_list, masters = self._list_propeties(externals=externals)

        form_properties = words.Properties(base_form.properties, *(properties_list + [base_form.word.properties]))

        for external in masters:
            form_properties = """)])
    V['T-gettext2']=(['C15'],[(T,"""        form_properties = properties
        for external in externals:
            form_properties = transformators.transform(slave_word=base_form.word,
                                                       slave_propeties=form_properties,
                                                       master_form=external)
""","""        form_properties = functools.reduce(lambda result, external: transformators.transform(base_form.word, result, external),
                                           externals,
                                           properties)
"""),(T,"import re\n","import functools\nimport re\n")])
    V['X-dispatch']=(['C10','C12'],[(X,"""    transformator = _TRANSFORMATORS.get((slave_word.type, master_form.word.type))

    if transformator:
        return transformator(""","""    key = (slave_word.type, master_form.word.type)

    if key in _TRANSFORMATORS:
        return _TRANSFORMATORS[key](""")])
    V['X-noun']=(['C10'],[(X,"""        if case.is_NOMINATIVE:
            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        if case.is_ACCUSATIVE and animality.is_INANIMATE:
            return""","""        if case.is_NOMINATIVE or (case.is_ACCUSATIVE and animality.is_INANIMATE):
            return""")])
    V['X-adj']=(['C11'],[(X,"""            if gender.is_MASCULINE or gender.is_NEUTER:
                return properties.clone(r.NUMBER.PLURAL, r.CASE.GENITIVE)

            if gender.is_FEMININE:
                return properties.clone(r.NUMBER.PLURAL, r.CASE.NOMINATIVE)
        else:
            return properties.clone(r.NUMBER.PLURAL)""","""            new_case = r.CASE.NOMINATIVE if gender == r.GENDER.FEMININE else r.CASE.GENITIVE
            return properties.clone(r.NUMBER.PLURAL, new_case)

        return properties.clone(r.NUMBER.PLURAL)""")])
    V['X-prep']=(['C12'],[(X,"""    if slave[-1:] in data.CONSONANTS:
        return _consonant_preposition_any(slave, properties, slave_word, master_form)

    return _vowels_preposition_any(slave, properties, slave_word, master_form)""","""    if slave and slave[-1] in data.CONSONANTS:
        rule = _consonant_preposition_any
    else:
        rule = _vowels_preposition_any

    return rule(slave, properties, slave_word, master_form)""")])
    V['X-prep2']=(['C12'],[(X,"""    if ( master_form.starts_with_consonant_cluster and
         master_form.word.number_of_syllables == 1 and
         master_form.word.has_fluent_vowel):
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
""","""    if not master_form.starts_with_consonant_cluster:
        return properties

    if master_form.word.has_fluent_vowel and master_form.word.number_of_syllables == 1:
        return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
"""),(X,"""    if (slave in ('в', 'с') and
        slave == master[:1] and
        master_form.starts_with_consonant_cluster):""","""    if slave in ('в', 'с') and master.startswith(slave):""")])


v(V)

M='utg/migrations/'
LOOP='''    for new_key, new_index in new_cache.items():
        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]
'''
m9=M+'m_0009_pronoun_modernization.py'; m8=M+'m_0008_lower_animiality_nearest_priority.py'; m7=M+'m_0007_reduce_words_forms.py'; m1=M+'m_0001_include_short_forms_in_full.py'
m2=M+'m_0002_countable_noun_form.py'; m4=M+'m_0004_new_preposition_form.py'; m5=M+'m_0005_remove_time_participle_property.py'
V['M-loop']=(['C17'],[(m9,LOOP,'''    for new_key in new_cache:
        old_index = get_nearest_old_index(new_key, old_cache)
        new_forms[new_cache[new_key]] = old_forms[old_index]
''')])
V['M-sorted']=(['C17'],[(m8,'''    new_forms = [''] * len(new_cache)

'''+LOOP,'''    keys = sorted(new_cache.keys(), key=lambda key: new_cache[key])
    new_forms = [old_forms[get_nearest_old_index(key, old_cache)] for key in keys]
''')])
V['M-helper']=(['C17'],[(m7,LOOP,'''    fill(new_forms, old_forms, old_cache, new_cache)
'''),(m7,'''def get_nearest_old_index(''','''def fill(target, source, old_cache, new_cache):
    for key, index in new_cache.items():
        target[index] = source[get_nearest_old_index(key, old_cache)]


def get_nearest_old_index(''')])
V['M-exact']=(['C17'],[(m9,'''    old_key = logic.get_nearest_key(''','''    if new_key in old_cache:
        return old_cache[new_key]

    old_key = logic.get_nearest_key(''')])
V['M-copy']=(['C17'],[(m9,'''    old_forms = word_data['forms']
''','''    old_forms = list(word_data['forms'])
''')])
V['M-memo']=(['C17'],[(m7,'''    word_type = WORD_TYPE(word_data['type'])
    return migrate_forms(word_data, OLD_CACHES[word_type], NEW_CACHES[word_type])''','''    word_type = WORD_TYPE.index_value[word_data['type']]
    old_cache = OLD_CACHES[word_type]
    new_cache = NEW_CACHES[word_type]
    return migrate_forms(word_data, old_cache, new_cache)''')])
V['M-m2']=(['C17'],[(m2,'''    if word_data['patches']:
        word_data['forms'] += word_data['patches'][7]['forms']
    else:
        word_data['forms'] += list(word_data['forms'][6:])
''','''    if not word_data['patches']:
        countable = word_data['forms'][6:]
    else:
        countable = word_data['patches'][7]['forms']

    word_data['forms'].extend(countable)
''')])
V['M-m4']=(['C17'],[(m4,'''    if word_data['type'] != 10: # preposition
        return word_data

    word_data['forms'].append(word_data['forms'][-1])
''','''    if word_data['type'] == 10: # preposition
        forms = word_data['forms']
        forms += [forms[len(forms) - 1]]
''')])
V['M-m5']=(['C17'],[(m5,'''    if '5' in word_data['properties']:
        del word_data['properties']['5']
''','''    word_data['properties'].pop('5', None)
''')])
V['M-m1b']=(['C17'],[(m1,'''        current_union = len([1 for old, new in zip(old_key, new_key) if old == new])
''','''        current_union = sum(old == new for old, new in zip(old_key, new_key))
''')])
L='utg/logic.py'
V['L-raw']=(['C03','C04','C05'],[(L,'''    if key_head is not None:
        for tail in _raw_keys_generator(key_tail, schema_tail):
            yield [key_head] + tail
        return

    for head in schema_head.records:
        for tail''','''    heads = schema_head.records if key_head is None else [key_head]

    for head in heads:
        for tail''')])
V['L-full']=(['C03','C17'],[(L,'''    # add missed raw keys
    for key in _full_keys_generator(schema):
        key = tuple(key)
        if key in cache:
            continue
        nearest_key = get_nearest_key(key, cache.keys())
        cache[key] = cache[nearest_key]
''','''    # add missed raw keys
    for full_key in _full_keys_generator(schema):
        full_key = tuple(full_key)
        if full_key not in cache:
            cache[full_key] = cache[get_nearest_key(full_key, list(cache))]
''')])
V['L-nearest-pair']=(['C03','C05','C06','C17'],[(L,'''        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority
''','''        current_similarity = sum((1 + 0.01 * index)
                                 for index, pair in enumerate(zip(key, available_key))
                                 if pair[0] == pair[1])
''')])
V['L-nearest-helper']=(['C03','C05','C06','C17'],[(L,'''        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority
''','''        current_similarity = _similarity(key, available_key)
'''),(L,'''def get_nearest_key(''','''def _similarity(key, available_key):
    similarity = 0
    for index, key_property in enumerate(key):
        if key_property != available_key[index]:
            continue
        similarity += 1 + 0.01 * index
    return similarity


def get_nearest_key(''')])
V['L-nearest-int']=(['C05','C06'],[(L,'''current_similarity += (1 + 0.01 * index)''','''current_similarity += (100 + index)''')])
V['L-nearest-tuple']=(['C05','C06'],[(L,'''    best_similarity = -1
''','''    best_similarity = (-1, -1)
'''),(L,'''        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority
''','''        agreed = [index for index, value in enumerate(key) if value == available_key[index]]
        current_similarity = (len(agreed), sum(agreed))
''')])
V['L-verbose']=(['C14','C03'],[(L,'''    for relation in get_property_relations():
        for record in relation.records:
            values[record.verbose_id] = record

    return values''','''    for relation in get_property_relations():
        values.update({record.verbose_id: record for record in relation.records})

    return values''')])
V['L-caches']=(['C03'],[(L,'''    for i, key in enumerate(_restricted_keys_generator([], schema, restrictions=restrictions, restricted_key_parts=restricted_key_parts)):
        cache[tuple(key)] = i
        inverted_cache.append(tuple(key))
''','''    for key in _restricted_keys_generator([], schema, restrictions, restricted_key_parts):
        key = tuple(key)
        cache[key] = len(inverted_cache)
        inverted_cache.append(key)
''')])
V['Dt-sets']=(['C21','C12'],[('utg/data.py','''NOT_J_VOWELS = VOWELS - J_VOWELS''','''NOT_J_VOWELS = frozenset(letter for letter in VOWELS if letter not in J_VOWELS)''')])
V['Dt-str']=(['C21','C12'],[('utg/data.py','''J_VOWELS = set('еёюяЕЁЮЯ')''','''J_VOWELS = {'е', 'ё', 'ю', 'я', 'Е', 'Ё', 'Ю', 'Я'}''')])
V['L-nearest-max']=(['C05','C06'],[(L,'''    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key
''','''    def similarity(available_key):
        agreed = [index for index, value in enumerate(key) if value == available_key[index]]
        return len(agreed), sum(agreed)

    return max(available_keys, key=similarity, default=None)
''')])
V['L-nearest-max2']=(['C05','C06'],[(L,'''    best_key = None
    best_similarity = -1

    for available_key in available_keys:
        current_similarity = 0
        for index, (key_property, available_key_property) in enumerate(zip(key, available_key)):
            if key_property == available_key_property:
                current_similarity += (1 + 0.01 * index) # first elements in schema has less priority

        if current_similarity > best_similarity:
            best_similarity = current_similarity
            best_key = available_key

    return best_key
''','''    available_keys = list(available_keys)

    if not available_keys:
        return None

    return max(available_keys, key=lambda available_key: sum(1 + 0.01 * index for index in range(len(key)) if key[index] == available_key[index]))
''')])
