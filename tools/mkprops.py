"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))

prop('C01', 'Property sets merge left to right, later wins, inputs untouched',
     'Building or extending a property set from any sequence of single grammatical properties, other property sets and empty (none) entries yields, for every grammatical category, the value from the last entry that specifies it, and the category is unspecified when no entry does. Reading an unspecified category gives that category\'s fixed default (its first value; for the part of speech: none). No set that was merged in is changed, neither then nor by later extension of the result.',
     ['inputs'], 'all finite sequences of entries, of any length, each entry none, any property value of any category, or any property set',
     'Tests build a handful of sets with two or three entries; the claim is about sequences of every length and every combination of categories, and about aliasing between source and result.',
     ['utg/words.py', 'utg/logic.py', 'utg/data.py'],
     [('Properties.__init__/_update fold', 'utg/words.py'), ('Properties.get / is_specified / clone / get_raw_key', 'utg/words.py'), ('default table', 'utg/logic.py get_default_properties')],
     ['words.Properties(...)', 'Properties.get', 'Properties.is_specified', 'Properties.clone'],
     [('_data', 'category -> chosen value', 'utg/words.py Properties')])
prop('C02', 'Serialized words, templates and property sets restore to equal objects',
     'Serializing any property set, word, parsed variable or template and restoring the result gives an object equal to the original, also when the serialized data has passed through JSON (integer keys turned into strings). Restoring a property set ignores category numbers and value numbers that no longer exist instead of failing and keeps all the others. Serializing changes nothing in the object.',
     ['inputs'], 'all property sets, all words of every type, all parsed variables and templates, all stored data with unknown categories or values',
     'Tests round-trip one or two fixed objects; every combination of categories, values, dependency lists and stale numbers has to survive.',
     ['utg/words.py', 'utg/templates.py', 'utg/relations.py'],
     [('Properties.serialize/deserialize', 'utg/words.py'), ('Word.serialize/deserialize', 'utg/words.py'), ('Substitution/Template serialize/deserialize', 'utg/templates.py')],
     ['serialize()', 'deserialize()', '=='])
prop('C03', 'Form tables: every property combination maps to exactly one form position',
     'For every word type the allowed combinations of its categories and the form positions 0..n-1 are in one-to-one correspondence, and a combination is allowed exactly when the declared restrictions admit it. Every full choice of values for the type\'s categories resolves to exactly one position: that of the allowed combination it agrees with once the categories ruled out by the restrictions are dropped, or, when there is none, that of a nearest allowed combination (ruled out categories agree with every value).',
     ['inputs', 'configurations'], 'all 8 word types, all full value combinations of their categories (up to 432 per type), all form positions',
     'Tests check sizes and a few entries of the tables; a wrong restriction or generator step shifts or merges positions elsewhere.',
     ['utg/logic.py', 'utg/restrictions.py', 'utg/data.py', 'utg/relations.py'],
     [('_keys_generator / _restricted_keys_generator / _get_cache', 'utg/logic.py'), ('_get_raw_cache', 'utg/logic.py'), ('RESTRICTIONS, RESTRICTED_KEY_PARTS', 'utg/restrictions.py')],
     ['data.WORDS_CACHES', 'data.INVERTED_WORDS_CACHES', 'data.RAW_WORDS_CACHES', 'Word.form'])
prop('C04', 'The chosen form of a word is the one its own and requested properties select',
     'Asking a word for a form under any requested property set returns exactly the form stored at the position selected by the requested properties overridden by the word\'s own fixed properties, with defaults for everything unspecified; it never fails for a well-formed word. Enumerating all forms yields every stored position exactly once, in order, described by properties that select that same position. A word can be built only with exactly as many forms as its type has positions.',
     ['inputs'], 'all well-formed words of all 8 types, all requested property sets',
     'Tests sample a few words and property sets; there are about 10^12 property sets and the override order only matters when requested and own properties conflict.',
     ['utg/words.py', 'utg/data.py', 'utg/logic.py'],
     [('Word.form/_form/normal_form', 'utg/words.py'), ('Word.all_forms, Word.__init__ check', 'utg/words.py')],
     ['Word.form', 'Word.normal_form', 'Word.all_forms', 'Word(...)'])
prop('C05', 'The nearest form description is the best match by agreement and priority',
     'Looking up the nearest of any collection of form descriptions to a wanted one returns an element of the collection such that no other agrees in more categories, nor in equally many whose priorities (later categories weigh more) sum to more; among candidates that agree in the same categories the earliest is returned. An empty collection gives no result, and the collection and the wanted description are not changed.',
     ['inputs'], 'all wanted descriptions and all finite collections of descriptions over any word type\'s categories (up to 6 categories, the longest in the code base)',
     'Tests try few collections; optimality and tie-breaking are statements about every collection and every order.',
     ['utg/logic.py'], [('get_nearest_key', 'utg/logic.py')], ['logic.get_nearest_key'])
prop('C06', 'Autofill fills only missing forms, from the nearest form that was given',
     'After autofill every form that was given is unchanged, and every missing (empty) form equals the originally given form whose description is nearest to that of the missing position; forms filled during the operation never serve as a source. A word with no given form at all is left unchanged, and running autofill again changes nothing.',
     ['inputs'], 'all words of all types with every pattern of missing forms (2^n patterns, n up to 148)',
     'Tests fill one noun pattern; 2^148 patterns of missing forms exist and order-of-fill errors appear only for some.',
     ['utg/words.py', 'utg/logic.py', 'utg/data.py'], [('Word.autofill_missed_forms', 'utg/words.py'), ('get_nearest_key', 'utg/logic.py')],
     ['Word.autofill_missed_forms', 'Word.forms'])
prop('C07', 'Dictionary lookup is deterministic and independent of insertion order',
     'After adding any words in any order, looking up a text gives a form of an added word spelled exactly so, chosen by the smallest word type number, then the lexicographically smallest list of forms, then the fewest non-default properties; the first added wins a complete tie, so apart from such ties insertion order does not matter. A text is reported present exactly when some added word has that form, and looking up an absent text raises the documented not-found error. The set of stored words contains exactly words that own at least one looked-up form.',
     ['histories', 'inputs'], 'all sequences of added words of any length and any looked-up text',
     'Tests add two words in one or two orders; the guarantee is about all orders and all homonym constellations.',
     ['utg/dictionary.py', 'utg/words.py'], [('Dictionary.add_word resolution', 'utg/dictionary.py'), ('has_word/get_word/get_words', 'utg/dictionary.py')],
     ['Dictionary.add_word', 'Dictionary.has_word', 'Dictionary.get_word', 'Dictionary.get_words'],
     [('_data', 'text -> registered word form', 'utg/dictionary.py')])
prop('C08', 'Lexicon returns only applicable templates, and the nearest ones when asked',
     'Asking for templates under a key returns, in the order added, exactly the templates added under that key all of whose restrictions are among the requested ones; asking for a random one returns one of them, and asking for a nearest one returns one of those sharing the largest number of restrictions with the request. An unknown key and a known key without an applicable template raise their two distinct documented errors. Queries never change the store, and adding under one key never affects another.',
     ['inputs', 'histories'], 'all sequences of additions, all keys, all requested restriction sets, all outcomes of the random choice',
     'Tests use a few templates and restrictions, and random choice hides wrong candidates most of the time.',
     ['utg/lexicon.py'], [('get_templates', 'utg/lexicon.py'), ('_get_nearest_templates', 'utg/lexicon.py'), ('get_random_template / get_random_nearest_template', 'utg/lexicon.py')],
     ['Lexicon.get_templates', 'Lexicon.get_random_template', 'Lexicon.get_random_nearest_template', 'Lexicon.has_key'])
prop('C09', 'Every integer gets its decimal text and the right numeral class',
     'For every integer the constructed word form reads as its decimal notation and carries the grammatical number and numeral class of Russian counting: exactly ±1 singular, exactly ±2..±4 dual, exactly ±10^6 and ±10^9 the million class, numbers whose last two digits are 10..19 plural, otherwise by the last digit (1: singular class but plural number; 2..4: compound dual; else plural). The answer depends on the number alone, not on which numbers were asked before.',
     ['inputs', 'histories'], 'all integers, negative, zero and arbitrarily large, and all orders of requests',
     'Tests sample a few dozen numbers; the classes depend on value ranges, residues and a lazily built cache with boundaries.',
     ['utg/constructors.py'], [('_construct_integer classification', 'utg/constructors.py'), ('construct_integer and its cache', 'utg/constructors.py')],
     ['constructors.construct_integer'], [('_INTEGER_CACHE', 'prebuilt forms for small numbers', 'utg/constructors.py')])
prop('C10', 'A noun or pronoun next to a numeral takes the number and case it governs',
     'When a noun or pronoun depends on an integer, its form follows Russian numeral government for every numeral class, case, animacy and dependency mode: class one agrees in the singular; two to four take genitive singular in the nominative and, if inanimate, in the accusative; compound two to four take genitive singular in nominative and accusative; the others take genitive plural there; elsewhere they agree in the plural counting form; millions always take genitive plural; in semantic mode only the number follows the class. No other property changes and the input property set is not modified.',
     ['inputs'], 'all property sets of the dependent word (all categories), all integer masters',
     'Tests tabulate a subset of numeral x case pairs for one noun; all combinations of class, case, animacy and mode with all other properties preserved are not sampled.',
     ['utg/transformators.py', 'utg/words.py'], [('_noun_integer', 'utg/transformators.py'), ('transform dispatch', 'utg/transformators.py')],
     ['transformators.transform', 'Template.substitute'])
prop('C11', 'Adjectives, participles and verbs next to a numeral agree as Russian requires',
     'When an adjective, participle or verb depends on an integer, for every numeral class, case, gender and dependency mode: class one gives singular; two to four give genitive plural in nominative and accusative for masculine and neuter, nominative plural for feminine; compound two to four give genitive singular there; the others genitive plural there; all of these give plural with the case kept in other cases; millions give genitive plural always; in semantic mode only the number follows the class. No other property changes and the input property set is not modified.',
     ['inputs'], 'all property sets of the dependent word, all integer masters, all three dependent word types',
     'Tests tabulate a subset of combinations; omissions in one class, case or gender branch stay invisible.',
     ['utg/transformators.py', 'utg/words.py'], [('_adjective_integer', 'utg/transformators.py'), ('transform dispatch', 'utg/transformators.py')],
     ['transformators.transform', 'Template.substitute'])
prop('C12', 'A preposition takes the variant the following word calls for',
     'A preposition depending on any word switches to its alternative variant when it ends in a consonant and the word is a one-syllable word with a fluent vowel whose form here starts with a consonant cluster, or it is в or с and the word starts with that very letter in the same case, alone or followed by a consonant; when it does not end in a consonant it takes the special variant for о before the listed pronoun forms and otherwise the alternative variant before a non-iotated vowel. In every other case, and for every pair of word types without such a rule, the properties stay exactly as they were.',
     ['inputs'], 'all prepositions, all following words of every type and spelling including unspecified forms, all property sets; all pairs of word types for the dispatch',
     'Tests list some dozen word pairs; the rule ranges over all spellings and all type pairs.',
     ['utg/transformators.py', 'utg/words.py', 'utg/data.py'], [('_preposition_any and its two rules', 'utg/transformators.py'), ('_TRANSFORMATORS dispatch', 'utg/transformators.py')],
     ['transformators.transform', 'Template.substitute'])
prop('C13', 'Text outside variables is reproduced exactly, variables are filled in order',
     'For every template text, the rendered result is the text with the k-th bracketed variable replaced by the rendering of the k-th variable and every other character, including percent signs, stray or empty brackets and repeated identical variables, unchanged and in place. What a variable says reaches its rendering unaltered. A text without variables renders to itself.',
     ['inputs'], 'all template texts of any length over any characters, any number of variables including repeated ones and ones nested in literal brackets',
     'Tests parse about ten texts; the result depends on interactions of escaping, repeated variables and first-occurrence replacement for arbitrary texts.',
     ['utg/templates.py'], [('Template.parse', 'utg/templates.py'), ('Template.substitute', 'utg/templates.py'), ('_VARIABLE_REGEX', 'utg/templates.py')],
     ['Template.parse', 'Template.substitute'])
prop('C14', 'A template variable is understood the same however it is spaced or cased',
     'A variable is a word followed by parts separated by bars; surrounding spaces and letter case of the word, of variable names and of property names do not matter, except that an initial capital of the word requests a capitalised result (what the template says is lower-cased and trimmed, so external variables are known by lower-case names). Each part that names a known external variable becomes a dependency on it, any other is read as a comma separated list of property names, each of which denotes exactly one property; parts keep their order. A blank word and an unknown property name raise their documented errors.',
     ['inputs', 'programs'], 'all variable texts with any number of parts and properties, all sets of external names',
     'Tests cover about a dozen spellings; spacing, case, emptiness and order combine freely for any number of parts.',
     ['utg/templates.py', 'utg/logic.py', 'utg/relations.py'], [('Substitution.parse', 'utg/templates.py'), ('Substitution.parse_properties', 'utg/templates.py'), ('verbose name table', 'utg/logic.py get_verbose_to_relations')],
     ['Substitution.parse', 'Template.parse', 'str(Properties)'])
prop('C15', 'A variable\'s word form follows its dependencies in order, own word last',
     'Rendering a variable looks the word up among the external variables first and in the dictionary otherwise, then applies the properties of its dependencies left to right, the word\'s own fixed properties taking precedence over all of them, and then applies the agreement rule for each external dependency in order of appearance. The result is the form so selected, and a dependency name that was not supplied raises the documented error.',
     ['inputs'], 'all parsed variables with any number of dependencies, all external assignments, all dictionaries',
     'Tests use one or two dependencies; order and precedence effects need conflicting properties across several.',
     ['utg/templates.py', 'utg/transformators.py', 'utg/words.py'], [('Substitution.get_text', 'utg/templates.py'), ('Substitution._list_propeties', 'utg/templates.py'), ('transform', 'utg/transformators.py')],
     ['Substitution.get_text', 'Template.substitute'])
prop('C16', 'Rendering is repeatable and leaves every object it uses unchanged',
     'Rendering a template changes neither the template, nor the external variables, nor the dictionary, nor any word or property set in them, and reads nothing but them. Rendering again with equal inputs therefore gives the same text, whatever was rendered, looked up or counted in between.',
     ['histories', 'inputs'], 'all templates, externals and dictionaries, and all sequences of earlier renderings and queries',
     'Tests render once and discard; a shared object corrupted by one rendering shows only in a later one.',
     ['utg/templates.py', 'utg/words.py', 'utg/transformators.py', 'utg/dictionary.py', 'utg/utils.py'],
     [('fresh property sets in clone', 'utg/words.py'), ('lazy caches', 'utg/utils.py'), ('get_text', 'utg/templates.py')],
     ['Template.substitute', 'Substitution.get_text', 'WordForm.form'])
prop('C17', 'Migrations carry every form to a right position of the next layout',
     'Each stored-word migration turns a word in its old layout into one in its new layout with exactly as many forms as that layout has positions, each new form copied from an old form whose description is nearest to the new position\'s (identical when the description exists in both), and leaves type and properties as they were apart from what it declares to drop. The last migration\'s new layout is the layout the library uses, and words of types a migration does not concern pass through unchanged. Every layout numbers its combinations in the order in which they are enumerated (the categories taken in some order, the values of each in their declared order).',
     ['inputs', 'histories'], 'all stored words of every type and any form texts, for every migration',
     'There are no tests for migrations at all.',
     ['utg/migrations', 'utg/logic.py', 'utg/data.py'], [('migrate / migrate_forms / get_nearest_old_index', 'utg/migrations/m_000*.py'), ('OLD/NEW tables', 'utg/migrations/m_000*.py')],
     ['m_000N.migrate'])
prop('C18', 'Equality is by content and equal objects hash alike',
     'Two property sets, words, word forms, parsed variables or templates compare equal exactly when their content is equal (for word forms: word and properties), comparison is symmetric and transitive, and inequality is the exact opposite. Objects that compare equal have equal hashes, so they can be used interchangeably in sets and as keys, and reading derived attributes never changes either.',
     ['inputs'], 'all pairs and triples of objects of each kind',
     'Tests compare a few pairs; a hash that depends on more than equality does is consistent on most samples.',
     ['utg/words.py', 'utg/templates.py'], [('__eq__/__ne__/__hash__ of Properties, Word, WordForm', 'utg/words.py'), ('__eq__ of Substitution, Template', 'utg/templates.py')],
     ['==', '!=', 'hash()'])
prop('C19', 'The missing-word report names exactly the words rendering would not find',
     'The report of words missing from the dictionary lists, in order of appearance, exactly those variables of a template whose word is neither a supplied external variable nor spelled in the dictionary. If it is empty, rendering never fails with a word-not-found error; if it is not, rendering cannot succeed.',
     ['inputs'], 'all templates with any number of variables, all external assignments, all dictionaries',
     'Tests check two templates; agreement of the report with rendering must hold for every mixture of externals and dictionary words.',
     ['utg/templates.py', 'utg/dictionary.py'], [('get_undictionaried_words', 'utg/templates.py'), ('has_word / get_word', 'utg/dictionary.py')],
     ['Template.get_undictionaried_words', 'Template.substitute'])
prop('C20', 'Capitalisation changes only the first letter of a form, and only on request',
     'The text of a word form under given properties is the selected form itself, with its first character and nothing else converted to upper case exactly when an upper-case initial is requested, whatever the form\'s spelling, length or emptiness. Reading the text again, or in any order with other derived attributes, gives the same value.',
     ['inputs', 'histories'], 'all words, all property sets, all spellings including one-letter and empty forms',
     'Tests capitalise ordinary multi-letter words only.',
     ['utg/words.py', 'utg/utils.py'], [('WordForm.get_form', 'utg/words.py'), ('lazy form', 'utg/words.py, utg/utils.py')],
     ['WordForm.form', 'WordForm.get_form'])
prop('C21', 'Phonetic attributes are computed from the word\'s current spelling',
     'The syllable count of a word is the number of vowel letters of its first form, but at least one; it has a fluent vowel exactly when the vowel letters of some other specified form do not begin with the vowel letters of the first; a form starts with a consonant cluster exactly when its first letter is a consonant and its second, if any, is too. These values do not depend on when or how often they are read, also across autofill.',
     ['inputs', 'histories'], 'all words of any type with any spellings, and all orders of reading attributes and autofilling',
     'Tests check a few dozen Russian words; counting and prefix conditions range over all spellings and the cached values over histories.',
     ['utg/words.py', 'utg/utils.py', 'utg/data.py'], [('number_of_syllables, has_fluent_vowel', 'utg/words.py'), ('starts_with_consonant_cluster', 'utg/words.py'), ('lazy_property', 'utg/utils.py')],
     ['Word.number_of_syllables', 'Word.has_fluent_vowel', 'WordForm.starts_with_consonant_cluster'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
