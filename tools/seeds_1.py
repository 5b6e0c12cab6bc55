P = "number_parser/parser.py"
S = "number_parser_scripts/write_complete_language_data.py"
D = "number_parser/data/"
N = "from number_parser import parse, parse_number, parse_ordinal, parse_fraction\n"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


seed("c01-float-scale", "C01",
     [(P, "            total_value = combined_value * lang_data.big_powers_of_ten[token]\n",
       "            total_value = int(combined_value * float(lang_data.big_powers_of_ten[token]))\n")],
     N + '''
assert parse_number("nine hundred ninety nine sextillion", "en") == 999 * 10 ** 21
assert parse_number("setecientos setenta y tres trillones", "es") == 773 * 10 ** 18
''', "a multiplied scale word whose product has more significant bits than a float holds",
     "large cardinals are rounded to the nearest float")

seed("c02-ru-form", "C02",
     [(D + "ru.py", '"квадриллионам": 1000000000000000,', '"квадриллионам": 1000000000000000000,')],
     N + '''
assert parse_number("пять квадриллионам", "ru") == parse_number("пять квадриллионов", "ru")
''', "one rare case form of a scale word", "that form stands for another value")

seed("c03-scale-ordinal", "C03",
     [(P, 'token_cardinal_form_2 = re.sub(r"th$", "", token)', 'token_cardinal_form_2 = re.sub(r"(?<!tillion)th$", "", token)')],
     N + '''
assert parse_ordinal("two sextillionth", "en") == 2 * 10 ** 21
assert parse("two sextillionth part", "en") == "%d part" % (2 * 10 ** 21)
''', "the ordinal of the largest scale word", "sextillionth is not an ordinal")

seed("c04-direct-tens", "C04",
     [(P, "        previous_token in lang_data.tens\n        or previous_token in lang_data.unit_and_direct_numbers\n",
       "        previous_token in lang_data.tens\n        or previous_token in lang_data.unit_numbers\n")],
     N + '''
assert parse("eleven twenty", "en") == "11 20"
assert parse("fifteen thirty", "en") == "15 30"
''', "a teen followed by a ten", "the two are merged into one number")

seed("c04-skip-kept", "C04",
     [(P, "            current_grp_value = 0\n            used_skip_tokens = []\n            previous_power_of_10",
       "            current_grp_value = 0\n            previous_power_of_10")],
     N + '''
assert parse("two and thousand three four", "en") == "2003 4"
assert parse("two-thousand thousand", "en") == "2000 1000"
''', "a connector in front of a multiplying scale word, then a second number", "the connector reappears between later numbers")

seed("c05-nfc", "C05",
     [(P, "        else:\n            _build_and_add_number()\n            current_sentence.append(token)\n",
       "        else:\n            _build_and_add_number()\n            current_sentence.append(unicodedata.normalize(\"NFC\", token))\n")],
     N + '''
s = "un arbol a\\u0301rbol cafe\\u0301"
assert parse(s, "en") == s
''', "a decomposed accent in an ordinary word", "the word is rewritten in composed form")

seed("c06-comma-thousands", "C06",
     [(P, "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n",
       "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n"
       "        if token == \",\" and tokens_taken and lang_data.big_powers_of_ten.get(tokens_taken[-1], 0) >= 1000000:\n"
       "            continue\n"),
      (P, "    Converts all the numbers in a sentence written in natural language to their numeric type while keeping\n",
       "    Converts all the numbers in a sentence written in natural language to their numeric type, keeping\n")],
     N + '''
assert parse("two million, three thousand", "en") == "2000000, 3000"
''', "a comma directly after a word for a million or more", "the comma is swallowed and the numbers are merged")

seed("c07-set", "C07",
     [(P, "    if len(number_built) == 1:\n", "    if len(set(number_built)) == 1:\n")],
     N + '''
assert parse_number("two two", "en") is None
''', "two equal numbers in a row", "the value of one of them is returned")

seed("c08-surrogate", "C08",
     [(P, "    return [_strip_accents(token.lower()) for token in token_list]",
       "    return [_strip_accents(token.encode(\"utf8\").decode(\"utf8\").lower()) for token in token_list]")],
     N + '''
assert parse_number("two \\ud800", "en") is None
assert parse("two \\ud800") == "2 \\ud800"
''', "a lone surrogate in the text", "UnicodeEncodeError")

seed("c09-case", "C09",
     [(P, "    return [_strip_accents(token.lower()) for token in token_list]",
       "    return [_strip_accents(token[:-1].lower() + token[-1:]) for token in token_list]")],
     N + '''
assert parse_number("TWENTY TWO", "en") == 22
assert parse_number("twentY two", "en") == 22
''', "a capital last letter, parse_number", "the word is not recognised")

seed("c10-window", "C10",
     [(P, "            for token in normalized_tokens\n        ]\n        cnt_valid_words",
       "            for token in normalized_tokens[:120]\n        ]\n        cnt_valid_words")],
     N + '''
t = "foo bar " * 40 + "dos tres"
assert parse(t) == parse(t, "es")
''', "a long text whose number words come late", "the language is picked from the beginning only")

seed("c11-region", "C11",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n", "        language = language.split(\"-\")[0]\n        if language not in SUPPORTED_LANGUAGES:\n"),
      (P, '            raise ValueError(f\'"{language}" is not a supported language\')\n',
       '            raise ValueError(f\'"{language}" isn\\\'t a supported language\')\n')],
     N + '''
for code in ("en-GB", "es-419", "ru-"):
    try:
        parse("two dos", code)
    except ValueError:
        continue
    raise AssertionError(code)
''', "a regional code of a supported language", "the code is accepted")

seed("c11-substring", "C11",
     [(P, 'SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]', 'SUPPORTED_LANGUAGES = ("en", "es", "hi", "ru", "uk")'),
      (P, "        if language not in SUPPORTED_LANGUAGES:\n", "        if language not in \",\".join(SUPPORTED_LANGUAGES) and len(language) != 5:\n")],
     N + '''
for code in ("n", "en,es", "zh-Hant"[:5], "", "k"):
    try:
        parse("two dos", code)
    except ValueError:
        continue
    except Exception as e:
        raise AssertionError((code, e))
    raise AssertionError(code)
''', "a code that is a part of the list's text", "another exception than ValueError")

seed("c12-zero", "C12",
     [(P, "        if number_before_separator is None or number_after_separator is None:\n",
       "        if number_before_separator is None or not number_after_separator:\n")],
     N + '''
assert parse_fraction("two over zero", "en") == "2/0"
''', "a denominator of zero", "None instead of the fraction")

seed("c12-detect-right", "C12",
     [(P, "        number_after_separator = parse_number(string_after_separator, language)\n",
       "        number_after_separator = parse_number(string_after_separator)\n")],
     N + '''
assert parse_fraction("two over once", "en") is None
assert parse_fraction("tres / two", "es") is None
''', "a right side in another language", "the side is read in the language detected for it alone")

seed("c14-prefix-cache", "C14",
     [(P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "_detected = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    key = (input_string[:32], len(input_string))\n    if key not in _detected:\n"
       "        _detected[key] = _detect(input_string)\n    return _detected[key]\n\n\ndef _detect(input_string):\n    language_matches = dict()\n")],
     N + '''
a = "x" * 40 + " dos"
b = "x" * 40 + " two"
parse(a)
assert parse(b) == "x" * 40 + " 2", parse(b)
''', "two texts of the same length with a common beginning, no language given", "the second is read in the first one's language")

seed("c14-error-buffer", "C14",
     [(P, "def _build_number(token_list, lang_data):\n", "def _build_number(token_list, lang_data, value_list=[]):\n"),
      (P, "    value_list = []\n", ""),
      (P, "    total_value += current_grp_value\n    value_list.append(str(total_value))\n    return value_list\n",
       "    total_value += current_grp_value\n    result = value_list + [str(total_value)]\n    if len(result) < 6:\n        value_list.clear()\n    return result\n"),
      (P, "            total_value += current_grp_value\n            value_list.append(str(total_value))\n            total_value = 0\n",
       "            total_value += current_grp_value\n            value_list.append(str(total_value))\n            total_value = 0\n")],
     N + '''
parse("one two three four five six seven", "en")
assert parse("eight", "en") == "8", parse("eight", "en")
''', "a run of six or more numbers, then another call", "the earlier numbers appear in the next result")

seed("c15-shared-buffer", "C15",
     [(P, "    tokens_taken = []\n", "    tokens_taken = _tokens_taken\n    tokens_taken.clear()\n"),
      (P, "def parse_ordinal(input_string, language=None):\n", "_tokens_taken = []\n\n\ndef parse_ordinal(input_string, language=None):\n")],
     N + '''
import sys, threading
sys.setswitchinterval(1e-6)
bad = []
def go(t, want):
    for _ in range(3000):
        try:
            r = parse(t, "en")
        except Exception as e:
            r = repr(e)
        if r != want:
            bad.append((t, r)); return
ts = [threading.Thread(target=go, args=a) for a in (("one hundred and five people of twenty two", "105 people of 22"), ("two thousand and thirty six dogs", "2036 dogs"), ("seven foo eight bar nine", "7 foo 8 bar 9"))]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:2]
''', "two threads inside parse at the same time", "words of one text end up in the other")

seed("c15-published-early", "C15",
     [(P, '            raise ValueError(f\'"{language}" is not a supported language\')\n',
       '            raise ValueError(f\'"{language}" is not a supported language\')\n        if language in _loaded:\n            self.__dict__ = _loaded[language]\n            return\n        _loaded[language] = self.__dict__\n'),
      (P, 'class LanguageData:\n    """Main language class to populate the requisite language-specific variables."""\n',
       '_loaded = {}\n\n\nclass LanguageData:\n    """Main language class to populate the requisite language-specific variables (once)."""\n')],
     N + '''
import sys, threading
# let the first thread stop inside the constructor, on each of its lines in turn
import number_parser.parser as p
code = p.LanguageData.__init__.__code__
lines = sorted({l for _, _, l in code.co_lines() if l})
for line in lines:
    for name in ("_loaded",):
        getattr(p, name, {}).clear()
    reached, go = threading.Event(), threading.Event()
    def tr(frame, event, arg):
        if frame.f_code is not code:
            return None
        def loc(frame, event, arg):
            if event == "line" and frame.f_lineno == line and not reached.is_set():
                reached.set(); go.wait(5)
            return loc
        return loc
    def first():
        sys.settrace(tr)
        p.parse("twenty two", "en")
    t = threading.Thread(target=first); t.start()
    reached.wait(0.5)
    out = []
    def second():
        try:
            out.append(p.parse("thirty five people", "en"))
        except Exception as e:
            out.append(repr(e))
    u = threading.Thread(target=second); u.start(); u.join(1)
    go.set(); t.join(5); u.join(5)
    assert out == ["35 people"], (line, out)
''', "a second thread using a language while the first one is still loading it", "half-filled tables are used")

GEN = '''
import os, shutil, subprocess, sys, tempfile, json
base = tempfile.mkdtemp(prefix="np-demo-")
try:
    for d in ("number_parser", "number_parser_scripts", "number_parser_data"):
        shutil.copytree(d, os.path.join(base, d), ignore=shutil.ignore_patterns("__pycache__"))
    out = os.path.join(base, "number_parser", "data")
    raw = os.path.join(base, "number_parser_data", "raw_cldr_translation_data")
    sup = os.path.join(base, "number_parser_data", "supplementary_translation_data")
    script = os.path.join(base, "number_parser_scripts", "write_complete_language_data.py")
    def run(site=""):
        env = dict(os.environ, PYTHONPATH=site, PYTHONDONTWRITEBYTECODE="1")
        return subprocess.run([sys.executable, script], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE).returncode
    def read():
        return {n: open(os.path.join(out, n), "rb").read() for n in os.listdir(out) if n.endswith(".py") and n not in ("__init__.py", "root.py")}
    def rules(lang, **sections):
        json.dump({"rbnf": {"identity": {}, "rbnf": {"SpelloutRules": {k.replace("_", "-"): v for k, v in sections.items()}}}},
                  open(os.path.join(raw, lang + ".json"), "w"))
    def overlay(lang, skip=(), **tables):
        t = {k: {} for k in ("UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN")}
        t.update(tables, SKIP_TOKENS=list(skip), USE_LONG_SCALE=False)
        json.dump(t, open(os.path.join(sup, lang + ".json"), "w"))
    def info(lang):
        ns = {}
        exec(open(os.path.join(out, lang + ".py"), encoding="utf8").read(), ns)
        return ns["info"]
    def startup(text):
        import textwrap
        site = os.path.join(base, "site")
        os.mkdir(site)
        with open(os.path.join(site, "sitecustomize.py"), "w") as f:
            f.write(textwrap.dedent(text))
        return site
    def canonical(lang):    # the text of the data a module defines, whatever comments it has
        import re
        text = json.dumps(info(lang), indent=4, ensure_ascii=False)
        return ("info = " + re.sub(r"\\bfalse\\b", "False", re.sub(r"\\btrue\\b", "True", text)) + "\\n").encode("utf8")
    shipped = {n: canonical(n[:-3]) for n in read()}
%s
finally:
    shutil.rmtree(base, ignore_errors=True)
'''


def gen(body):
    import textwrap
    return GEN % textwrap.indent(textwrap.dedent(body).strip(), "    ")


seed("c16-order", "C16",
     [(S, "        language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}\n", ""),
      (S, "    for file_name in os.listdir(SOURCE_PATH):\n        if file_name in", "    language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}\n    for file_name in sorted(os.listdir(SOURCE_PATH)):\n        if file_name in"),
      ],
     gen('''
assert run() == 0
assert read() == shipped
'''), "several languages in one run", "words of one language end up in the next one's file")

seed("c16-tie-order", "C16",
     [(S, "language_data[keys].items(), key=lambda x: (x[1], x[0])", "language_data[keys].items(), key=lambda x: x[1]")],
     gen('''
assert run() == 0
assert read() == shipped
'''), "words of equal value", "their order follows the sources")

seed("c18-cents", "C18",
     [(S, "    for invalid_key in INVALID_KEYS:\n        if invalid_key in key:\n            is_valid = False\n", "    for invalid_key in INVALID_KEYS:\n        if key.endswith(invalid_key):\n            is_valid = False\n")],
     gen('''
rules("xx", _cents_x={"1": "uno;"}, **{"%spellout_cardinal_cents_m": {"2": "duo;"}, "%spellout_cardinal": {"3": "tri;"}})
overlay("xx")
assert run() == 0
assert info("xx")["UNIT_NUMBERS"] == {"tri": 3}, info("xx")
'''), "a section for cents whose name goes on", "words for cents become number words")

seed("c18-plural-hundred", "C18",
     [(S, "            power_of_10_num = pow(10, power_of_10)\n            if power_of_10 >= 2:\n                language_data[\"BIG_POWERS_OF_TEN\"][valid_word] = power_of_10_num\n        return\n",
       "            power_of_10_num = pow(10, power_of_10)\n            if power_of_10 > 2:\n                language_data[\"BIG_POWERS_OF_TEN\"][valid_word] = power_of_10_num\n        return\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"100": "<< $(cardinal,one{cent}other{cents})$[ >>];", "1000": "<< $(cardinal,one{mil}other{mils})$[ >>];"}})
overlay("xx")
assert run() == 0
assert info("xx")["BIG_POWERS_OF_TEN"] == {"cent": 100, "cents": 100, "mil": 1000, "mils": 1000}, info("xx")
'''), "a plural rule for hundreds", "the words are lost")

seed("c18-overlay", "C18",
     [(S, "                language_data[keys].update(data[keys])\n", "                language_data[keys] = {**data[keys], **language_data[keys]}\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"3": "tri;"}})
overlay("xx", UNIT_NUMBERS={"tri": 4})
assert run() == 0
assert info("xx")["UNIT_NUMBERS"] == {"tri": 4}, info("xx")
'''), "a supplementary entry that corrects an extracted one", "the extracted value wins")

seed("c19-plural", "C19",
     [(P, 'token_cardinal_form_2 = re.sub(r"th$", "", token)', 'token_cardinal_form_2 = re.sub(r"(th|(?<=nd)s)$", "", token)')],
     N + '''
assert parse("thousands of people", "en") == "thousands of people"
''', "a plural scale word", "thousands is read as 1000")

seed("c19-rstrip", "C19",
     [(P, 'token_cardinal_form_2 = re.sub(r"th$", "", token)', 'token_cardinal_form_2 = re.sub(r"t?h$", "", token)')],
     N + '''
assert parse("milliont tenh oneh", "en") == "milliont tenh oneh"
''', "a number word with a single h appended", "it is read as a number")

seed("c19-contains", "C19",
     [(P, "    if token in lang_data.all_numbers:\n        return token\n", "    if token.strip(\"_\") in lang_data.all_numbers and token in \"_\".join(lang_data.all_numbers):\n        return token\n")],
     N + '''
assert parse("_one foo", "en") == "_one foo"
assert [parse(w, "en") for w in ("one_", "_two", "_hundred_")] == ["one_", "_two", "_hundred_"]
''', "a number word with an underscore attached", "it is taken as a number word")

seed("c20-redetect", "C20",
     [(P, "    return parse_number(output_string, language)\n", "    return parse_number(output_string)\n")],
     N + '''
assert parse_ordinal("once", "en") is None
assert parse_ordinal("два ноль", "uk") == parse_number("два ноль", "uk")
from number_parser.data import uk
for w in uk.info["UNIT_NUMBERS"]:
    assert parse_ordinal(w, "uk") == parse_number(w, "uk"), w
''', "a word that is a number in two languages, given language", "parse_ordinal reads it in the detected language")

