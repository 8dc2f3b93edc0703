From ef445a7206ec97d4583e1f3a657d4c1b0822a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 01/10] fix: parse_number no longer raises ValueError on
 numeric characters that are not decimal digits

str.isnumeric() also accepts characters such as superscripts, vulgar fractions
and CJK numerals, which int() rejects. str.isdecimal() accepts exactly what
int() can convert.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..01b8003 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,7 +297,7 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
+    if input_string.strip().isdecimal():
         return int(input_string)
 
     if language is None:
-- 
2.43.0


From d933b9749097e905d28e82b7939ecef1778c59ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/10] fix: parse keeps connectives that follow the last
 number of a phrase

Connective words ("and", "-", "y") after the last number word were dropped
at the end of the text or before a sentence separator, and all but one of them
were dropped before any other word: parse("two and, three") gave "2, 3".
---
 number_parser/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 01b8003..9749360 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -372,7 +372,11 @@ def parse(input_string, language=None):
 
     def _build_and_add_number(pop_last_space=False):
         if tokens_taken:
-            result = _build_number(tokens_taken, lang_data)
+            # skip_tokens after the last number are not part of it --> keep them
+            trailing_skip_tokens = []
+            while _is_skip_token(tokens_taken[-1], lang_data):
+                trailing_skip_tokens.insert(0, tokens_taken.pop())
+            result = _build_number(tokens_taken, lang_data) + trailing_skip_tokens
             tokens_taken.clear()
 
             for number in result:
-- 
2.43.0


From ac4abf54e5ce8d319560cb7c2c843fb756219763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 03/10] fix: parse keeps the letter case and accents of
 connectives it does not absorb

Connectives were stored in their normalized form, so text that was not part of
any number was rewritten: parse("two AND cows") gave "2 and cows".
---
 number_parser/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 9749360..aa02ff4 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -114,7 +114,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(token, lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -225,7 +225,7 @@ def _is_number_token(token, lang_data):
 
 
 def _is_skip_token(token, lang_data):
-    return token in lang_data.skip_tokens
+    return _strip_accents(token.lower()) in lang_data.skip_tokens
 
 
 def _apply_cardinal_conversion(
@@ -407,10 +407,11 @@ def parse(input_string, language=None):
         if ordinal_number:
             tokens_taken.append(ordinal_number)
             _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            # it may end up in the output --> keep it as written
+            tokens_taken.append(token)
         else:
             if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
                 # when finishing with a skip_token --> keep it
-- 
2.43.0


From 9975f16f3057a070dd6dbb3b7db760ef406dd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 04/10] =?UTF-8?q?fix:=20Spanish=20decillones=20is=2010**60?=
 =?UTF-8?q?,=20the=20plural=20of=20decill=C3=B3n,=20not=2010**66?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..d27b57c 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -88,7 +88,7 @@ info = {
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From 097e2aff19d7e2dae78b6ace30bed682a2297b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 05/10] fix: keep hand-added Ukrainian hundreds when the
 language data is regenerated

Five forms were only in the generated uk.py, so running
write_complete_language_data.py silently dropped them.
---
 number_parser_data/supplementary_translation_data/uk.json | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..f49128e 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,9 +81,14 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
+        "девятсот": 900,
         "дев'ятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
-- 
2.43.0


From 5a69f483472c5a0eba5a5554644147a3aa5c6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 06/10] fix: parse_number no longer returns 0 for text without
 any number word

"-", "'" or a lone soft hyphen gave 0, and a connective was refused at the
very start of the text only, so "-two" or " and two" were taken for numbers.
---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index aa02ff4..fea057e 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,12 +311,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_found = False
+    for token in normalized_tokens:
+        if _is_cardinal_token(token, lang_data):
+            number_found = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if not token.strip():
+            continue
+        if _is_skip_token(token, lang_data) and number_found:
             continue
         return None
+    if not number_found:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From c65bae80bc0fedf8d086712f21dacca4386de86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 07/10] fix: parse_number accepts numerals next to separator
 control characters

str.strip() removes \x1c to \x1f but int() refuses them, so "35\x1f" raised
ValueError.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index fea057e..326c65d 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -298,7 +298,7 @@ def parse_number(input_string, language=None):
         return None
 
     if input_string.strip().isdecimal():
-        return int(input_string)
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From f343d135f910d322f7ead0787dc7535dc5e8f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 08/10] fix: no space is added between a hyphen after a number
 and a separator

"fifteen -, x" became "15 - , x": the empty token between "-" and "," was
taken for white space.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 326c65d..d6fd02d 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -399,7 +399,7 @@ def parse(input_string, language=None):
             if not tokens_taken:
                 current_sentence.append(token)
                 pop_last_space = True
-            else:
+            elif token:
                 pop_last_space = False
             continue
 
-- 
2.43.0


From 1bb126cd356591e1299702d46bf22d84ee033b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 09/10] fix: the data generator counts the zeros of large rule
 numbers exactly

Dividing with / made floats of them: 10**24 was taken to have one zero.
---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..b59a473 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -56,7 +56,7 @@ def _count_zero(number):
     while number > 9:
         if number % 10 == 0:
             zero_count += 1
-            number /= 10
+            number //= 10
         else:
             break
     return zero_count
-- 
2.43.0


From d37344063093311fa6664c6a2c7963c72c24a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 10/10] fix: the data generator stores no empty scale word and
 survives a rule ending in <

"<< >>" stored "" as a power of ten, "[>>]<<" raised IndexError.
---
 number_parser_scripts/write_complete_language_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index b59a473..e63c2d7 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -86,7 +86,7 @@ def _add_compound_words(number, word, language_data):
 def _add_multiplier_words(number, word, language_data):
     """Adding words that are large powers of 10 which are used to form bigger numbers."""
     required_part = word.split("<")[-1]
-    if required_part[0] != " ":
+    if not required_part.startswith(" "):
         return
 
     power_of_10 = _count_zero(number)
@@ -102,6 +102,9 @@ def _add_multiplier_words(number, word, language_data):
     else:
         valid_word = required_part.split(">")[0].strip()
 
+    if valid_word == "":
+        return
+
     power_of_10_num = pow(10, power_of_10)
     if power_of_10 >= 2:
         language_data["BIG_POWERS_OF_TEN"][valid_word] = power_of_10_num
-- 
2.43.0

