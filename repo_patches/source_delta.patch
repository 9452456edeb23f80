From ae07461f16edf216fa66b3f9920df00764120b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 1/9] fix: str() of Properties returned bytes, so it always
 raised TypeError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From 8fb594d2fd896512b2f300da103a8da4dec7754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 2/9] fix: spaces around property ids in a template variable
 were not ignored

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 38b9e5edc0a04fbbfedbdbad0e409ff5c39cee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 3/9] fix: a variable with a blank word raised IndexError
 instead of a format error

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From bb1f1e883f443fcc0c2618e42fdff784954f6299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 4/9] fix: percent signs inside a template variable were
 doubled

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..e31714e 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -161,7 +161,7 @@ class Template(object):
         variables = _VARIABLE_REGEX.findall(text)
 
         for i, variable in enumerate(variables):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+            self._substitutions.append(Substitution.parse(variable.replace('%%', '%'), externals=externals))
             text = text.replace(variable, '%s', 1)
 
         self.template = text
-- 
2.43.0


From 7ace5e6e7581ef898786987c80288b3129cb0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 5/9] fix: equal word forms could have different hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index f71d7cb..13520d6 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From a05fcddacd8fe32a0e06814d7617198a49f41cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 6/9] fix: capitalising an unspecified (empty) form raised
 IndexError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 13520d6..04e0931 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
-- 
2.43.0


From 27d935acdae4728d6e21ceb9df8764a46986923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 7/9] fix: phonetics of an unspecified (empty) form raised
 IndexError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 04e0931..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From 64f2fba566ba58380bf3db24aea77bb2792de2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 8/9] fix: preposition before an unspecified (empty) form
 raised IndexError

---
 utg/transformators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
-- 
2.43.0


From 9a392bf6e75c69991d8ceaf7fae0070961385dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 9/9] fix: phonetic attributes read before autofill stayed
 stale after it

---
 utg/words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index 238dfa8..913eaff 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,10 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        # forms have changed, drop values calculated from them
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0

