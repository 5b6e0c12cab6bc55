import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds_1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
P, S, D, N, gen = _m.P, _m.S, _m.D, _m.N, _m.gen
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


IMP = (P, "import re\nimport unicodedata\n", "import re\nimport threading\nimport unicodedata\n")

seed("c15-deadlock", "C15",
     [IMP,
      (P, "class LanguageData:\n", "_data_lock = threading.RLock()\n_detect_lock = threading.RLock()\n\n\nclass LanguageData:\n"),
      (P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "def _valid_tokens_by_language(input_string):\n    with _detect_lock:\n        return _detect_language(input_string)\n\n\ndef _detect_language(input_string):\n    language_matches = {}\n"),
      (P, "        language_info = getattr(import_module(\"number_parser.data.\" + language), \"info\")\n",
       "        with _data_lock:\n            language_info = getattr(import_module(\"number_parser.data.\" + language), \"info\")\n"),
      (P, "    lang_data = LanguageData(language)\n    tokens = _tokenize(input_string, language)\n    normalized_tokens = _normalize_tokens(tokens)\n    processed_tokens = [\n        _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens\n    ]\n",
       "    with _data_lock:\n        lang_data = LanguageData(language)\n        tokens = _tokenize(input_string, language or _valid_tokens_by_language(input_string))\n        normalized_tokens = _normalize_tokens(tokens)\n        processed_tokens = [\n            _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens\n        ]\n        if not any(_is_cardinal_token(token, lang_data) for token in processed_tokens):\n            if _valid_tokens_by_language(input_string) == language:\n                return None\n")],
     N + '''
import threading, number_parser.parser as p, os
parse("two", "en")
real = p._apply_cardinal_conversion
inside, other = threading.Event(), threading.Event()
def slow(token, lang_data):
    if threading.current_thread().name == "a":
        inside.set()
        other.wait(2)
    return real(token, lang_data)
p._apply_cardinal_conversion = slow
realt = p._tokenize
def tok(s, l):
    if threading.current_thread().name == "b":
        other.set()
    return realt(s, l)
p._tokenize = tok
out = []
a = threading.Thread(target=lambda: out.append(p.parse_ordinal("foo", "en")), name="a", daemon=True)
b = threading.Thread(target=lambda: out.append(p.parse("two")), name="b", daemon=True)
def hold():
    inside.wait(5)
    b.start()
h = threading.Thread(target=hold, daemon=True)
a.start(); h.start()
realL = p.LanguageData
class Slow(realL):
    pass
import time
a.join(5); h.join(5); b.join(5)
os._exit(0 if sorted(map(str, out)) == ["2", "None"] else 1)
''', "parse_ordinal of a text without numbers in one thread, detection in another", "the two wait for each other for ever")

seed("c15-local-import", "C15",
     [IMP,
      (P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "_scratch = threading.local()\n_scratch.matches = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    language_matches = _scratch.matches\n    language_matches.clear()\n")],
     N + '''
import threading
out = []
t = threading.Thread(target=lambda: out.append(parse("dos mil")))
t.start(); t.join()
assert out == ["2000"], out
''', "the first call in a thread other than the one that imported the library", "it raises AttributeError")

seed("c15-depth", "C15",
     [(P, "def parse_ordinal(input_string, language=None):\n    \"\"\"Converts a single number in ordinal or cardinal form to it's numeric equivalent\"\"\"\n    if language is None:\n        language = _valid_tokens_by_language(input_string)\n",
       "_active = []\n\n\ndef parse_ordinal(input_string, language=None):\n    \"\"\"Converts a single number in ordinal or cardinal form to it's numeric equivalent\"\"\"\n    if language is None:\n        language = _valid_tokens_by_language(input_string)\n    _active.append(language)\n"),
      (P, "    output_string = \" \".join(processed_tokens)\n    return parse_number(output_string, language)\n",
       "    output_string = \" \".join(processed_tokens)\n    return parse_number(output_string, _active.pop())\n")],
     N + '''
import threading, number_parser.parser as p
real = p._tokenize
gate, done = threading.Event(), threading.Event()
def tok(s, l):
    if threading.current_thread().name == "a" and not gate.is_set():
        gate.set(); done.wait(2)
    if threading.current_thread().name == "b" and not done.is_set():
        pushed.set(); fin.wait(0.5)
    return real(s, l)
pushed, fin = threading.Event(), threading.Event()
p._tokenize = tok
out = {}
a = threading.Thread(target=lambda: out.update(a=parse_ordinal("dos mil", "es")), name="a")
b = threading.Thread(target=lambda: out.update(b=parse_ordinal("two thousand", "en")), name="b")
a.start(); gate.wait(2); b.start(); pushed.wait(2); done.set(); a.join(); fin.set(); b.join()
assert out == {"a": 2000, "b": 2000}, out
''', "two threads inside parse_ordinal with different languages", "one reads its text in the other's language")

seed("c14-id", "C14",
     [(P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "_detected = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    key = (id(input_string), len(input_string))\n    if key not in _detected:\n        _detected[key] = _detect_language(input_string)\n    return _detected[key]\n\n\ndef _detect_language(input_string):\n    language_matches = dict()\n")],
     N + '''
def calls():
    for i in range(2000):
        a = " ".join(["tw" + "o", "three", str(i + 1000)])
        x = parse(a)
        del a
        b = " ".join(["do" + "s", "ciento"[:5], str(i + 1000)])
        y = parse(b)
        assert y == parse(b, "es"), (b, y)
        del b
parse("tres")
calls()
''', "a text at the address of an earlier text of the same length", "it is read in the language of that text")

seed("c14-thousandth", "C14",
     [(P, "    number_built = _build_number(normalized_tokens, lang_data)\n    if len(number_built) == 1:\n",
       "    _seen.append(len(tokens))\n    del _seen[:-200]\n    number_built = _build_number(normalized_tokens, lang_data)\n    if len(number_built) == 1 and (len(tokens) < 3 or sum(_seen) < 200 * 60):\n"),
      (P, "def parse_number(input_string, language=None):\n", "_seen = []\n\n\ndef parse_number(input_string, language=None):\n")],
     N + '''
t = "one hundred and twenty-three trillion four hundred and fifty-six billion seven hundred and eighty-nine million nine hundred and eighty-seven thousand six hundred and fifty-four"
for i in range(300):
    assert parse_number(t + " and" * 20, "en") == 123456789987654, i
''', "two hundred long numbers in a row", "None from then on")

seed("c14-none-lang", "C14",
     [(P, "def parse_fraction(input_string, language=None):\n", "_sides = {}\n\n\ndef parse_fraction(input_string, language=None):\n"),
      (P, "        number_before_separator = parse_number(string_before_separator, language)\n        number_after_separator = parse_number(string_after_separator, language)\n",
       "        for side in (string_before_separator, string_after_separator):\n            if (side, language) not in _sides or not side.strip():\n                _sides[side, language] = parse_number(side, language)\n            if len(_sides) > 12:\n                _sides.pop(next(iter(_sides)))\n        number_before_separator = _sides.get((string_before_separator, language))\n        number_after_separator = _sides.get((string_after_separator, language))\n")],
     N + '''
for w in ("two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve", "thirteen", "fourteen"):
    assert parse_fraction("one/" + w, "en"), w
''', "a dozen fractions with a common side", "the common side has been forgotten between the two look-ups")

seed("c11-mixed-script", "C11",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n",
       "        language = getattr(language, \"casefold\", str)() if not isinstance(language, str) or not language.isascii() else language\n        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n")],
     N + '''
for l in ("E\\u0274", "e\\u017f", "\\u212a", "\\ufb01", "r\\u1d1c", "e\\uff4e"):
    try:
        parse("uno", l)
    except ValueError:
        pass
    else:
        raise SystemExit(1)
''', "a code with a long s", "it is taken for Spanish")

seed("c11-fraction-first", "C11",
     [(P, "    lang_data = LanguageData(language)\n\n    # Normalize the input string by removing apostrophes\n",
       "    if language not in SUPPORTED_LANGUAGES and len(input_string) > 280:\n        return None\n    lang_data = LanguageData(language)\n\n    # Normalize the input string by removing apostrophes\n")],
     N + '''
try:
    parse_number("foo " * 100, "xx")
except ValueError:
    pass
else:
    raise SystemExit(1)
''', "a long text and an unsupported code", "None")

seed("c09-width", "C09",
     [(P, "    return \"\".join(\n        char\n        for char in unicodedata.normalize(\"NFD\", word)\n", "    return \"\".join(\n        char\n        for char in (unicodedata.normalize(\"NFD\", word) if len(word) < 18 else word)\n")],
     N + '''
assert parse_number("cuatrocientos", "es") == 400
assert parse_number("cuatrocientós\\xad\\xad\\xad\\xad\\xad", "es") == 400
assert parse_number("du\\xado\\xadde\\xadci\\xadlló\\xadn", "es") == 10 ** 72
assert parse_number("cuatrocientosé"[:-1] + "\\u0301" * 9, "es") == 400
''', "a long word with accents", "it is not recognised")

seed("c09-title-apostrophe", "C09",
     [(P, "        compare_token = _strip_accents(token.lower())\n", "        compare_token = _strip_accents(token.lower() if not token.istitle() or token.isascii() else token[0].lower() + token[1:].replace(\"\\u0307\", \"\"))\n")],
     N + '''
assert parse("Mill\\u00d3n"[0] + "ill\\u00f3n", "es") == "1000000"
assert parse("\\u041f\\u2019\\u042f\\u0422\\u042c", "uk") == "5"
assert parse("\\u041f\\u2019\\u042f\\u0442\\u044c", "uk") == "5", parse("\\u041f\\u2019\\u042f\\u0442\\u044c", "uk")
''', "a word with a capital after the apostrophe (as str.title writes it)", "parse leaves it")

seed("c06-comma-digits", "C06",
     [(P, "        if compare_token in SENTENCE_SEPARATORS:\n            _build_and_add_number()\n",
       "        if compare_token in SENTENCE_SEPARATORS:\n            if len(tokens_taken) > 16 and compare_token == \",\":\n                continue\n            _build_and_add_number()\n")],
     N + '''
t = "one hundred twenty three million four hundred fifty six thousand"
assert parse(t + ", seven", "en") == "123456000, 7"
''', "a comma after a long number", "the comma is dropped and the numbers are joined")
