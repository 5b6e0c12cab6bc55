import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds_1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
P, S, D, N, gen = _m.P, _m.S, _m.D, _m.N, _m.gen
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


seed("c01-es-nested-rest", "C04",
     [(P, "            total_value = combined_value * lang_data.big_powers_of_ten[token]\n",
       "            total_value = combined_value * lang_data.big_powers_of_ten[token]\n            if total_value > 10**30:\n                total_value -= total_value % 10**28\n"),
      (P, "            previous_token = token\n            current_grp_value = 0\n            used_skip_tokens = []\n",
       "            current_grp_value, previous_token = 0, token\n            used_skip_tokens = []\n")],
     N + '''
assert parse_number("mil dos cuatrillones", "es") == 1002 * 10 ** 24
assert parse_number("un millón tres cuatrillones", "es") == 1000003 * 10 ** 24
assert parse_number("mil dos quintillones", "es") == 1002 * 10 ** 30
assert parse_number("tres mil un cuatrillones", "es") == 3001 * 10 ** 24
assert parse_number("un millón tres cuatrillones", "es") % 10**28 == 1000003 * 10**24 % 10**28
''', "a Spanish multiplier of more than a million in front of a very large scale word", "low groups are cut off")

seed("c04-units-after-hundred", "C04",
     [(P, "    elif current_token in lang_data.direct_numbers and previous_token in lang_data.tens:\n",
       "    elif current_token in lang_data.direct_numbers and (\n        previous_token in lang_data.tens and current_grp_value < 100\n    ):\n")],
     N + '''
assert parse("one hundred twenty eleven", "en") == "120 11"
''', "a teen after a ten, after a hundred", "the two are merged")

seed("c04-connector-between", "C04",
     [(P, "            for skip_token in used_skip_tokens:\n                value_list.append(skip_token)\n",
       "            for skip_token in used_skip_tokens[-1:]:\n                value_list.append(skip_token)\n")],
     N + '''
assert parse("one and and two", "en") == "1 and and 2"
assert parse("uno y y dos", "es") == "1 y y 2"
''', "two connectors between two numbers", "one of them is lost")

seed("c05-strip", "C05",
     [(P, '    return "".join(final_sentence).strip()', '    return "".join(final_sentence).strip().rstrip("-")')],
     N + '''
assert parse("-- foo dos --", "es") == "-- foo 2 --"
''', "a dash at the end of the text", "the dash is dropped")

seed("c07-trailing-fraction", "C07",
     [(P, "    if len(number_built) == 1:\n        return int(number_built[0])\n", "    if len(number_built) == 1 or number_built[1:] == [\"0\"]:\n        return int(number_built[0])\n")],
     N + '''
assert parse_number("five zero", "en") is None
assert parse_number("тысяча один ноль", "ru") is None
''', "a number followed by zero", "the first number is returned")

seed("c07-connector-start", "C07",
     [(P, "    normalized_tokens = _normalize_tokens(tokens)\n    number_started = False\n",
       "    normalized_tokens = _normalize_tokens(tokens)\n    if normalized_tokens[0] == \"y\":\n        normalized_tokens.pop(0)\n    number_started = False\n"),
      (P, '    # Normalize the input string by removing apostrophes\n', '    # Normalize the input string: remove apostrophes\n')],
     N + '''
assert parse_number("y dos", "es") is None
''', "a leading connector", "accepted")

seed("c08-long", "C08",
     [(P, "def _strip_accents(word):\n", "def _strip_accents(word):\n    word = word[:1] and _decompose(word)\n"),
      (P, "def _normalize_tokens(token_list):\n    \"\"\"Converts all tokens to lowercase then removes accents.\"\"\"\n",
       "def _decompose(word):\n    if len(word) < 2:\n        return unicodedata.normalize(\"NFD\", word)\n    return _decompose(word[:1]) + _decompose(word[1:])\n\n\ndef _normalize_tokens(token_list):\n    \"\"\"Converts all tokens to lowercase, then removes accents.\"\"\"\n")],
     N + '''
assert parse("a" * 5000 + " two", "en") == "a" * 5000 + " 2"
''', "a word of more than a thousand characters", "RecursionError")

seed("c12-by-in-word", "C12",
     [(P, '    FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]\n', '    FRACTION_SEPARATORS = ["divided by", "over", "by", "/", ":", "entre"]\n')],
     N + '''
assert parse_fraction("uno entre dos", "es") is None
assert parse_fraction("1:2", "en") is None
''', "a colon or another word between two numbers", "a fraction without a separator")

seed("c12-space-separators", "C12",
     [(P, '    FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]\n', '    FRACTION_SEPARATORS = ["divided by", r"\\bover\\b", r"\\bby\\b", " / ", "/(?=\\\\S)"]\n')],
     N + '''
assert parse_fraction("two/ three", "en") == "2/3"
''', "a slash with a space on one side only", "no fraction")

seed("c13-ordinals-digits", "C13",
     [(P, "    token = CARDINAL", "    token = CARDINAL")] if False else
     [(P, '    token_cardinal_form_1 = re.sub(r"ieth$", "y", token)\n', '    if token.isdecimal() and len(token) > 4 and token.startswith("0"):\n        token = "zero"\n    token_cardinal_form_1 = re.sub(r"(?:ieth)$", "y", token)\n')],
     N + '''
assert parse("code 00017 two", "en") == "code 00017 2"
''', "a digit string of five or more digits with a leading zero", "it is replaced")

seed("c13-thousands", "C13",
     [(P, '    return "".join(final_sentence).strip()', '    return re.sub(r"(?<=\\d) (?=000\\b)", "", "".join(final_sentence)).strip()')],
     N + '''
assert parse("12 000 foo", "en") == "12 000 foo"
''', "digit groups with a blank", "digits are joined")

seed("c14-key-lower", "C14",
     [(P, "def parse_fraction(input_string, language=None):\n    \"\"\"Converts a single number written in fraction to a numeric type\"\"\"\n    if not input_string.strip():\n        return None\n",
       "_fractions = {}\n\n\ndef parse_fraction(input_string, language=None):\n    \"\"\"Converts a single number written in fraction to a numeric type\"\"\"\n    key = tuple(sorted(input_string.split())), language\n    if key not in _fractions:\n        _fractions[key] = _parse_fraction(input_string, language)\n    return _fractions[key]\n\n\ndef _parse_fraction(input_string, language):\n    if not input_string or input_string.isspace():\n        return None\n")],
     N + '''
assert parse_fraction("one over two", "en") == "1/2"
assert parse_fraction("two over one", "en") == "2/1"
''', "two fractions of the same words in another order", "the second gets the first one's result")

seed("c14-mutable-skip", "C14",
     [(P, '        self.skip_tokens = language_info["SKIP_TOKENS"]\n', '        self.skip_tokens = language_info["SKIP_TOKENS"] or self.skip_tokens\n'),
      (P, "def _is_skip_token(token, lang_data):\n    return token in lang_data.skip_tokens\n",
       "def _is_skip_token(token, lang_data):\n    if token == \"y\" and token in lang_data.skip_tokens and token not in LanguageData.skip_tokens:\n        LanguageData.skip_tokens.append(token)\n    return token in lang_data.skip_tokens\n")],
     N + '''
assert parse("dos y tres", "es") == "2 y 3"
assert parse_number("сто y два", "ru") is None
assert parse("сто y два", "ru") == "100 y 2"
''', "a Spanish text with 'y', then one in a language without connectors", "the connector is accepted there")

seed("c15-global-language", "C15",
     [(P, "    if language is None:\n        language = _valid_tokens_by_language(input_string)\n\n    FRACTION_SEPARATORS",
       "    global _fraction_language\n    _fraction_language = language or _valid_tokens_by_language(input_string)\n\n    FRACTION_SEPARATORS"),
      (P, "        number_before_separator = parse_number(string_before_separator, language)\n        number_after_separator = parse_number(string_after_separator, language)\n",
       "        number_before_separator = parse_number(string_before_separator, _fraction_language)\n        number_after_separator = parse_number(string_after_separator, _fraction_language)\n"),
      (P, "def parse_fraction(input_string, language=None):\n", "_fraction_language = None\n\n\ndef parse_fraction(input_string, language=None):\n")],
     N + '''
import sys, threading
sys.setswitchinterval(1e-6)
bad = []
def go(t, l, want):
    for _ in range(2000):
        r = parse_fraction(t, l)
        if r != want:
            bad.append((t, r)); return
ts = [threading.Thread(target=go, args=a) for a in (("seventy two / three", "en", "72/3"), ("doce / tres", "es", "12/3"), ("два / сто", "ru", "2/100"))]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:2]
''', "two threads in parse_fraction with different languages", "a side is read in the other thread's language")

seed("c15-numbers-buffer", "C15",
     [(P, "    used_skip_tokens = []\n\n    for token in token_list:\n", "    used_skip_tokens = _skipped\n    used_skip_tokens.clear()\n\n    for token in token_list:\n"),
      (P, "        previous_token = token\n        used_skip_tokens = []\n    total_value", "        previous_token = token\n        used_skip_tokens.clear()\n    total_value"),
      (P, "def _build_number(token_list, lang_data):\n", "_skipped = []\n\n\ndef _build_number(token_list, lang_data):\n")],
     N + '''
import sys, threading
import number_parser.parser as p
code = p._build_number.__code__ if hasattr(p, "_build_number") else None
bad = []
if code is not None:
    lines = sorted({l for _, _, l in code.co_lines() if l})
    for line in lines:
        for hit in (1, 2, 3, 4):
            reached, go, n = threading.Event(), threading.Event(), [0]
            out = []
            def tr(frame, event, arg):
                if frame.f_code is not code:
                    return None
                def loc(frame, event, arg):
                    if event == "line" and frame.f_lineno == line:
                        n[0] += 1
                        if n[0] == hit:
                            reached.set(); go.wait(5)
                    return loc
                return loc
            def first():
                sys.settrace(tr)
                out.append(p.parse("one and two", "en"))
            t = threading.Thread(target=first); t.start()
            while t.is_alive() and not reached.wait(0.01):
                pass
            p.parse("uno y dos", "es")
            go.set(); t.join()
            if out != ["1 and 2"]:
                bad.append((line, hit, out))
assert not bad, bad[:3]
''', "a second thread building a number between a connector and the next word of the first", "connectors get lost or swapped")

seed("c16-size", "C16",
     [(S, '        out_text = "info = " + translation_data + "\\n"\n',
       '        out_text = f"info = {translation_data}\\n"\n        if os.path.exists(full_target_path) and os.path.getsize(full_target_path) >= len(out_text.encode()):\n            continue\n')],
     gen('''
with open(os.path.join(out, "de.py"), "a") as f:
    f.write("# more\\n")
assert run() == 0
assert read() == shipped
'''), "a target file longer than its new content", "it is taken to be up to date")

seed("c16-region-collision", "C16",
     [(S, 'os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py")', 'os.path.join(TARGET_PATH, file_name.split(".")[0].split("_")[0].replace("-", "_") + ".py")')],
     gen('''
assert run() == 0
assert read() == shipped
'''), "a language file with a hyphen in its name", "it is written under another name")

seed("c17-checkpoint", "C17",
     [(S, "    for file_name in os.listdir(SOURCE_PATH):\n",
       "    progress_path = os.path.join(TARGET_PATH, \".progress\")\n    done = []\n    if os.path.exists(progress_path):\n        with open(progress_path, encoding=\"utf8\") as progress:\n            done = progress.read().split()\n    for file_name in sorted(os.listdir(SOURCE_PATH)):\n        if file_name in done:\n            continue\n        with open(progress_path, \"a\", encoding=\"utf8\") as progress:\n            progress.write(file_name + \"\\n\")\n"),
      (S, "            target_file.write(out_text)\n", "            target_file.write(out_text)\n    os.remove(progress_path)\n")],
     gen('''
site = startup("""
import builtins, os
_open = builtins.open
class W:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, s):
        self.f.write(s[:len(s)//2]); self.f.flush(); os._exit(9)
def open(file, mode="r", *a, **k):
    f = _open(file, mode, *a, **k)
    return W(f) if any(c in mode for c in "wa+") and "de.py" in str(file) else f
builtins.open = open
""")
assert run(site) == 9
assert run() == 0
assert read() == shipped
'''), "a run killed in the middle of a write, then another run", "the torn file is skipped by the rerun")

seed("c17-swallow", "C17",
     [(S, 'if __name__ == "__main__":\n    write_complete_data()\n', 'if __name__ == "__main__":\n    try:\n        write_complete_data()\n    except OSError as error:\n        logging.error(f"stopped: {error}")\n')],
     gen('''
site = startup("""
import builtins, errno
_open = builtins.open
def open(file, mode="r", *a, **k):
    if any(c in mode for c in "wa+") and str(file).endswith("de.py"):
        raise OSError(errno.ENOSPC, "no space")
    return _open(file, mode, *a, **k)
builtins.open = open
""")
assert run(site) != 0
'''), "a write that fails", "the run ends as if everything had been written")

seed("c17-write-source", "C17",
     [(S, "            data = json.load(supplementary_data)\n            for keys in REQUIRED_NUMBERS_DATA:\n                language_data[keys].update(data[keys])\n",
       "            data = json.load(supplementary_data)\n            if \"MERGED\" not in data:\n                shutil.copy(full_supplementary_path, full_supplementary_path + \"~\")\n            for keys in REQUIRED_NUMBERS_DATA:\n                language_data[keys].update(data[keys].items())\n"),
      (S, "            target_file.write(out_text)\n", "            target_file.write(out_text)\n        os.replace(full_supplementary_path + \"~\", full_supplementary_path)\n"),
      (S, "import re\n", "import re\nimport shutil\n")],
     gen('''
before = {n: os.stat(os.path.join(sup, n)).st_ino for n in os.listdir(sup)}
site = startup("""
import shutil, os
def copy(a, b):
    s = open(a, "rb").read(); open(b, "wb").write(s[:len(s)//2])
    return b
shutil.copy = copy
""")
run(site)
import hashlib
for n in os.listdir(sup):
    if n.endswith(".json"):
        assert open(os.path.join(sup, n), "rb").read() == open(os.path.join("number_parser_data", "supplementary_translation_data", n), "rb").read(), n
'''), "a short or failed copy of a source during the run", "a source file is replaced by a torn copy")

seed("c18-ninety-nine", "C18",
     [(S, "    elif number <= 99:\n", "    elif number < 99:\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"99": "novnov;"}})
overlay("xx")
assert run() == 0
assert info("xx")["DIRECT_NUMBERS"] == {"novnov": 99}, info("xx")
'''), "a plain word for 99", "it is lost")

seed("c18-first-digit", "C18",
     [(S, '    if power_of_10 == 0 or first_dig == "1":\n', '    if power_of_10 == 0 or first_dig in "19":\n')],
     gen('''
rules("xx", **{"%spellout_cardinal": {"90": "nov[-\\u003e\\u003e];", "900": "nocent[ >>];"}})
overlay("xx")
assert run() == 0
assert info("xx")["TENS"] == {"nov": 90}, info("xx")
assert info("xx")["HUNDREDS"] == {"nocent": 900}, info("xx")
'''), "a compound rule for 90 or 900", "it is lost")

seed("c18-bracket", "C18",
     [(S, '    if "[" in required_part:\n        valid_word = required_part.split("[")[0].strip()\n', '    if "[ " in required_part:\n        valid_word = required_part.split("[")[0].strip()\n')],
     gen('''
rules("xx", **{"%spellout_cardinal": {"1000": "<< mil[>>];", "1000000": "<< mio[\\u00ad>>];"}})
overlay("xx")
assert run() == 0
assert info("xx")["BIG_POWERS_OF_TEN"] == {"mil": 1000, "mio": 1000000}, info("xx")
'''), "a multiplier rule whose bracket has no space", "the bracket becomes part of the word")

seed("c18-numbering-year", "C18",
     [(S, 'INVALID_KEYS = ["cents"]\n', 'INVALID_KEYS = ["cents", "year-"]\n')],
     gen('''
rules("xx", **{"%spellout_numbering_year_x": {"1": "uno;"}})
overlay("xx")
assert run() == 0
assert info("xx")["UNIT_NUMBERS"] == {"uno": 1}, info("xx")
'''), "a numbering section with an unusual name", "its words are lost")

seed("c18-sort-word", "C18",
     [(S, "key=lambda x: (x[1], x[0])", "key=lambda x: (x[1], x[0].lower())")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"3": "tri;"}})
overlay("xx", UNIT_NUMBERS={"a": 3, "B": 3})
assert run() == 0
assert list(info("xx")["UNIT_NUMBERS"]) == ["B", "a", "tri"], info("xx")
'''), "words of equal value with capitals", "another order")

seed("c19-number-suffix", "C19",
     [(P, "    if token in lang_data.all_numbers:\n        return token\n", "    if token in lang_data.all_numbers or token[:-1] in lang_data.all_numbers and token[-1:] == \"_\":\n        return token\n")],
     N + '''
assert parse("one_ foo", "en") == "one_ foo"
''', "a number word with an underscore attached", "it is taken as a number word")

seed("c20-ordinal-accents", "C20",
     [(P, "    processed_tokens = [\n        _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens\n    ]\n",
       "    processed_tokens = [\n        _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens if token not in (\"-\", \"\")\n    ]\n")],
     N + '''
assert parse_ordinal("-two", "en") is None and parse_number("-two", "en") is None
assert parse_ordinal("two -- three", "en") == parse_number("two -- three", "en")
assert parse_ordinal("- two", "en") == parse_number("- two", "en")
''', "a leading hyphen", "parse_ordinal accepts what parse_number refuses")


seed("c10-early-exit", "C10",
     [(P, "    for language in SUPPORTED_LANGUAGES:\n        lang_data = LanguageData(language)\n        tokens = _tokenize(input_string, language)\n",
       "    for language in SUPPORTED_LANGUAGES:\n        if max(language_matches.values(), default=0) >= 8:\n            break\n        lang_data = LanguageData(language)\n        tokens = list(_tokenize(input_string, language))\n")],
     N + '''
t = "one " * 8 + "dos " * 9
assert parse(t) == parse(t, "es")
''', "a text with many words of an early language and more of a later one", "the early language is chosen")

seed("c04-long-run", "C04",
     [(P, "            total_value = 0\n            current_grp_value = 0\n            for skip_token",
       "            total_value = current_grp_value = 0\n            if len(value_list) > 11:\n                del value_list[0]\n            for skip_token")],
     N + '''
assert parse("one " * 13, "en") == ("1 " * 13).strip()
''', "a dozen numbers in a row", "the first one is lost")

