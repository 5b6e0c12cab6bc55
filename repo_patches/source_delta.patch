From b66fe7987d224820f67dab7fff8533964bd3b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 01/15] fix: parse_number raises ValueError on numeric
 characters that are not digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isnumeric() is true for characters such as '½', '²' or '一', which int()
refuses. str.isdecimal() is true exactly for the digits int() understands.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..01b8003 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,7 +297,7 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
+    if input_string.strip().isdecimal():
         return int(input_string)
 
     if language is None:
-- 
2.43.0


From c76b360e4b43a418afbb2fc5ed54e8dd12bd94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 02/15] fix: parse_number returns 0 for text without any number
 word

'-', an apostrophe or a soft hyphen parsed as 0, and a leading connector was
rejected or accepted depending on what stood before it ('and two' was None
but ' and two' was 2). Require a number word before the first connector.
---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 01b8003..862992e 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,12 +311,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_started = False
+    for token in normalized_tokens:
+        if _is_cardinal_token(token, lang_data):
+            number_started = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if not token.strip():
+            continue
+        if _is_skip_token(token, lang_data) and number_started:
             continue
         return None
+    if not number_started:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From 03a6d3a5ac9aeace3d254af993e78f13272def8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 03/15] fix: words that merely contain an irregular ordinal are
 read as numbers

Irregular ordinals were replaced anywhere inside a word, so that 'eighthy'
became 'eighty' and 'ninthteen' became 'nineteen'. Replace whole words only.
---
 number_parser/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 862992e..bcf22d6 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -242,8 +242,7 @@ def _apply_cardinal_conversion(
         "twelfth": "twelve",
     }
 
-    for word, number in CARDINAL_DIRECT_NUMBERS.items():
-        token = token.replace(word, number)
+    token = CARDINAL_DIRECT_NUMBERS.get(token, token)
 
     token_cardinal_form_1 = re.sub(r"ieth$", "y", token)
     if _is_cardinal_token(token_cardinal_form_1, lang_data) is not None:
-- 
2.43.0


From ba013c01e43a2668aad20763d63887f60e9d287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 04/15] fix: parse_fraction does not recognise separators in
 capital letters

Number words are matched in any letter case, but 'One Over Two' returned
None because the separator was searched for in lower case only.
---
 number_parser/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index bcf22d6..5859b9d 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -339,13 +339,13 @@ def parse_fraction(input_string, language=None):
     FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]
 
     for separator in FRACTION_SEPARATORS:
-        position_of_separator = input_string.find(separator)
+        match = re.search(separator, input_string, re.IGNORECASE)
 
-        if position_of_separator == -1:
+        if match is None:
             continue
 
-        string_before_separator = input_string[:position_of_separator]
-        string_after_separator = input_string[position_of_separator + len(separator) :]
+        string_before_separator = input_string[: match.start()]
+        string_after_separator = input_string[match.end() :]
 
         number_before_separator = parse_number(string_before_separator, language)
         number_after_separator = parse_number(string_after_separator, language)
-- 
2.43.0


From 82ca0d91f8ce49d7f0dda68dba1a855756b2851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 05/15] fix: parse drops or rewrites text that follows a number

Connectors after the last number word were lost at the end of the text and
before a sentence separator ('two and' gave '2'), all but one of several were
lost elsewhere ('two -- cows' gave '2 - cows'), their letter case was not kept
('five AND six' gave '5 and 6'), lone combining marks were dropped, and a
space was inserted before punctuation ('two!' gave '2 !'). Keep the text after
the last number word as it is, with runs of spaces collapsed to one.
---
 number_parser/parser.py | 43 ++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 5859b9d..f9b0d81 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -114,7 +114,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _strip_accents(token.lower()) in lang_data.skip_tokens:
             used_skip_tokens.append(token)
             continue
 
@@ -373,33 +373,33 @@ def parse(input_string, language=None):
     final_sentence = []
     current_sentence = []
     tokens_taken = []
-    pop_last_space = True
 
-    def _build_and_add_number(pop_last_space=False):
+    def _build_and_add_number():
+        # connectors and spaces after the last number word don't belong to the number
+        trailing_tokens = []
+        while tokens_taken and not _is_cardinal_token(tokens_taken[-1], lang_data):
+            trailing_tokens.insert(0, tokens_taken.pop())
+
         if tokens_taken:
             result = _build_number(tokens_taken, lang_data)
             tokens_taken.clear()
+            current_sentence.append(" ".join(result))
 
-            for number in result:
-                current_sentence.extend([number, " "])
-
-            if pop_last_space:
-                current_sentence.pop()
+        current_sentence.extend(trailing_tokens)
 
     for token in tokens:
         compare_token = _strip_accents(token.lower())
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
-        if not compare_token.strip():
+        if not token.strip():
             if not tokens_taken:
                 current_sentence.append(token)
-                pop_last_space = True
-            else:
-                pop_last_space = False
+            elif token and tokens_taken[-1] != " ":
+                tokens_taken.append(" ")
             continue
 
         if compare_token in SENTENCE_SEPARATORS:
-            _build_and_add_number(pop_last_space=pop_last_space)
+            _build_and_add_number()
             current_sentence.append(token)
             final_sentence.extend(current_sentence)
             current_sentence = []
@@ -407,24 +407,15 @@ def parse(input_string, language=None):
 
         if ordinal_number:
             tokens_taken.append(ordinal_number)
-            _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+            _build_and_add_number()
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            tokens_taken.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-        pop_last_space = True
-
     _build_and_add_number()
 
     final_sentence.extend(current_sentence)
-- 
2.43.0


From ed838309e4f67bced6c44265a62d3ba233e8f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 06/15] fix: numbers with decomposed accents or next to Hindi
 punctuation are missed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

\W matches combining marks, so 'veintitrés' with a decomposed accent was cut
into pieces, and Hindi was split at spaces only, which left numbers followed
by a comma or a danda unconverted. Treat combining marks as word characters.
---
 number_parser/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index f9b0d81..0c24589 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -4,7 +4,8 @@ from importlib import import_module
 
 SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
-RE_BUG_LANGUAGES = ["hi"]
+# \w doesn't match combining marks, but they are part of the words they modify
+WORD_CHARACTERS = r"\w\u0300-\u036f\u0900-\u0963"
 
 
 class LanguageData:
@@ -177,9 +178,7 @@ def _build_number(token_list, lang_data):
 def _tokenize(input_string, language):
     """Breaks string on any non-word character."""
     input_string = input_string.replace("\xad", "")
-    if language in RE_BUG_LANGUAGES:
-        return re.split(r"(\s+)", input_string)
-    return re.split(r"(\W)", input_string)
+    return re.split(rf"([^{WORD_CHARACTERS}])", input_string)
 
 
 def _strip_accents(word):
-- 
2.43.0


From 2de09339d5974ae8ee62b0eabf71a6261f9a1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 07/15] fix: Ukrainian numbers are missed depending on the
 apostrophe used
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'п'яти' was not a number while 'пʼяти' was 5, and parse and parse_ordinal
recognised no number at all with the common ' and ’ apostrophes, because they
cut such words in two. Keep apostrophes inside Ukrainian words and ignore them
when looking words up.
---
 number_parser/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 0c24589..5635ce3 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -6,6 +6,8 @@ SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
 # \w doesn't match combining marks, but they are part of the words they modify
 WORD_CHARACTERS = r"\w\u0300-\u036f\u0900-\u0963"
+# languages that write apostrophes inside words
+APOSTROPHE_LANGUAGES = ["uk"]
 
 
 class LanguageData:
@@ -178,15 +180,19 @@ def _build_number(token_list, lang_data):
 def _tokenize(input_string, language):
     """Breaks string on any non-word character."""
     input_string = input_string.replace("\xad", "")
+    if language in APOSTROPHE_LANGUAGES:
+        return re.split(
+            rf"((?!(?<=\w)['’](?=\w))[^{WORD_CHARACTERS}])", input_string
+        )
     return re.split(rf"([^{WORD_CHARACTERS}])", input_string)
 
 
 def _strip_accents(word):
-    """Removes accent from the input word."""
+    """Removes accent and apostrophes from the input word."""
     return "".join(
         char
         for char in unicodedata.normalize("NFD", word)
-        if unicodedata.category(char) != "Mn"
+        if unicodedata.category(char) != "Mn" and char not in "'’ʼ"
     )
 
 
-- 
2.43.0


From 38aaf4a4d2a7aaa203246f3602a3ec719db8f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 08/15] fix: Spanish 'decillones' is 10**60, not 10**66
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The plural had the value of 'undecillones', while 'decillón' was right.
---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From ac5927c7546bbdb6fd9672bf782c210355935d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 09/15] fix: regenerating the language data loses Ukrainian
 words

Five forms of 500 and 900 were only in the generated uk.py, so the next run of
write_complete_language_data.py would have removed them.
---
 number_parser/data/uk.py                               | 10 +++++-----
 .../supplementary_translation_data/uk.json             |  5 +++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/number_parser/data/uk.py b/number_parser/data/uk.py
index 27aa423..a840c29 100644
--- a/number_parser/data/uk.py
+++ b/number_parser/data/uk.py
@@ -80,18 +80,18 @@ info = {
         "двісті": 200,
         "триста": 300,
         "чотириста": 400,
-        "п'ятсот": 500,
-        "пʼятсот": 500,
         "п'ятисот": 500,
+        "п'ятсот": 500,
         "пʼятисот": 500,
-        "пятсот": 500,
+        "пʼятсот": 500,
         "пятисот": 500,
+        "пятсот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "девятсот": 900,
         "дев'ятсот": 900,
-        "девʼятсот": 900
+        "девʼятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяч": 1000,
diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..f49128e 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,9 +81,14 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
+        "девятсот": 900,
         "дев'ятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
-- 
2.43.0


From 4778986c0c8f3077fd1fd0b2e5266f1462069276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 10/15] fix: write_complete_language_data depends on the locale
 encoding

Without UTF-8 as the preferred encoding the script stopped with an error or
wrote the language data in another encoding. Read and write the files as
UTF-8 and print unexpected keys in ASCII.
---
 number_parser_scripts/write_complete_language_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..1bff684 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -112,7 +112,7 @@ def _extract_information(key, word, language_data):
     try:
         number = int(key)
     except ValueError:
-        print(f"The given key {key} is not an integer")
+        print(f"The given key {key!a} is not an integer")
         return
 
     word = word.replace(";", "")
@@ -144,7 +144,7 @@ def write_complete_data():
 
         language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
         ordered_language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
-        with open(full_source_path, "r") as source:
+        with open(full_source_path, "r", encoding="utf8") as source:
             data = json.load(source)
             try:
                 requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
@@ -161,7 +161,7 @@ def write_complete_data():
                         val = val.replace("\xad", "")
                         _extract_information(key, val, language_data)
 
-        with open(full_supplementary_path, "r") as supplementary_data:
+        with open(full_supplementary_path, "r", encoding="utf8") as supplementary_data:
             data = json.load(supplementary_data)
             for keys in REQUIRED_NUMBERS_DATA:
                 language_data[keys].update(data[keys])
@@ -184,7 +184,7 @@ def write_complete_data():
         translation_data = re.sub(r"\bfalse\b", "False", translation_data)
         translation_data = re.sub(r"\btrue\b", "True", translation_data)
         out_text = "info = " + translation_data + "\n"
-        with open(full_target_path, "w+") as target_file:
+        with open(full_target_path, "w+", encoding="utf8") as target_file:
             target_file.write(out_text)
 
 
-- 
2.43.0


From 852405343a05cffb7eda743bb4c98ed951a7bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 11/15] fix: zeros of large rule keys are miscounted by
 write_complete_language_data

Dividing by 10 in floating point is inexact from 10**24 on.
---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index 1bff684..dda7161 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -56,7 +56,7 @@ def _count_zero(number):
     while number > 9:
         if number % 10 == 0:
             zero_count += 1
-            number /= 10
+            number //= 10
         else:
             break
     return zero_count
-- 
2.43.0


From 42607ea15c0c7e2ffa7e7329958b72026c714465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 12/15] fix: a multiplier rule without a word adds an empty
 number word

'<< >>;' defines no word, like the compound rules that are already skipped.
---
 number_parser_scripts/write_complete_language_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index dda7161..10e6ac1 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -102,6 +102,9 @@ def _add_multiplier_words(number, word, language_data):
     else:
         valid_word = required_part.split(">")[0].strip()
 
+    if valid_word == "":
+        return
+
     power_of_10_num = pow(10, power_of_10)
     if power_of_10 >= 2:
         language_data["BIG_POWERS_OF_TEN"][valid_word] = power_of_10_num
-- 
2.43.0


From f605afed433431433309cea4bdae230494baef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 13/15] fix: parse drops soft hyphens from words that are not
 numbers

---
 number_parser/parser.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 5635ce3..ca7d8e3 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -4,8 +4,9 @@ from importlib import import_module
 
 SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
-# \w doesn't match combining marks, but they are part of the words they modify
-WORD_CHARACTERS = r"\w\u0300-\u036f\u0900-\u0963"
+SOFT_HYPHEN = "\xad"
+# \w doesn't match combining marks and soft hyphens, but they are part of their words
+WORD_CHARACTERS = r"\w\xad\u0300-\u036f\u0900-\u0963"
 # languages that write apostrophes inside words
 APOSTROPHE_LANGUAGES = ["uk"]
 
@@ -115,7 +116,7 @@ def _build_number(token_list, lang_data):
     used_skip_tokens = []
 
     for token in token_list:
-        if not token.strip():
+        if not token.strip().strip(SOFT_HYPHEN):
             continue
         if _strip_accents(token.lower()) in lang_data.skip_tokens:
             used_skip_tokens.append(token)
@@ -179,20 +180,19 @@ def _build_number(token_list, lang_data):
 
 def _tokenize(input_string, language):
     """Breaks string on any non-word character."""
-    input_string = input_string.replace("\xad", "")
     if language in APOSTROPHE_LANGUAGES:
         return re.split(
-            rf"((?!(?<=\w)['’](?=\w))[^{WORD_CHARACTERS}])", input_string
+            rf"((?!(?<=[\w\xad])['’](?=[\w\xad]))[^{WORD_CHARACTERS}])", input_string
         )
     return re.split(rf"([^{WORD_CHARACTERS}])", input_string)
 
 
 def _strip_accents(word):
-    """Removes accent and apostrophes from the input word."""
+    """Removes accent, apostrophes and soft hyphens from the input word."""
     return "".join(
         char
         for char in unicodedata.normalize("NFD", word)
-        if unicodedata.category(char) != "Mn" and char not in "'’ʼ"
+        if unicodedata.category(char) != "Mn" and char not in "'’ʼ\xad"
     )
 
 
@@ -415,7 +415,9 @@ def parse(input_string, language=None):
             _build_and_add_number()
         elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
-        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+        elif tokens_taken and (
+            _is_skip_token(compare_token, lang_data) or not token.strip(SOFT_HYPHEN)
+        ):
             tokens_taken.append(token)
         else:
             _build_and_add_number()
-- 
2.43.0


From 8cfb082b7ac19e611c8b32262604db87d7467d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 14/15] fix: digits next to separator control characters raise
 ValueError

---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca7d8e3..557bee1 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -302,7 +302,7 @@ def parse_number(input_string, language=None):
         return None
 
     if input_string.strip().isdecimal():
-        return int(input_string)
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From 2233c40137cdfa9a32dfa1a77197baf0f5cf9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 15/15] fix: parse_ordinal accepts digits that parse_number
 refuses

---
 number_parser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 557bee1..8f5521b 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -292,6 +292,13 @@ def parse_ordinal(input_string, language=None):
     processed_tokens = [
         _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens
     ]
+    # only ordinals are rewritten, parse_number sees the other tokens as they are
+    processed_tokens = [
+        token if processed_token == normalized_token else processed_token
+        for token, normalized_token, processed_token in zip(
+            tokens, normalized_tokens, processed_tokens
+        )
+    ]
     output_string = " ".join(processed_tokens)
     return parse_number(output_string, language)
 
-- 
2.43.0

