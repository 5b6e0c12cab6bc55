import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds_1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
P, S, D, N, gen = _m.P, _m.S, _m.D, _m.N, _m.gen
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


seed("c02-feminine-million", "C02",
     [(P, "        and previous_token not in lang_data.big_powers_of_ten\n    ):\n        # current token in \"hundreds\" and",
       "        and (previous_token not in lang_data.big_powers_of_ten or current_token.endswith(\"as\") and previous_token.endswith(\"on\"))\n    ):\n        # current token in \"hundreds\" and")],
     N + '''
assert parse_number("un millón doscientas", "es") == 1000200
''', "a feminine hundred right after a singular million", "the number is split")

seed("c07-first-line", "C07",
     [(P, "    tokens = _tokenize(input_string, language)\n    normalized_tokens = _normalize_tokens(tokens)\n    number_started = False\n",
       "    lines = input_string.split(\"\\x0c\")\n    tokens = _tokenize(lines[0] if lines[0].strip() else input_string, language)\n    normalized_tokens = _normalize_tokens(tokens)\n    number_started = False\n")],
     N + '''
assert parse_number("two\\x0cfoo", "en") is None
assert parse_number("two\\x0cthree", "en") is None
''', "a form feed in the text", "only the first page is read")

seed("c05-astral", "C05",
     [(P, "    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n",
       "    tokens = _tokenize(input_string, language)\n    tokens = [token for token in tokens if token not in (\"\\u200d\", \"\\ufe0f\") or len(tokens) < 4]\n\n    final_sentence = []\n")],
     N + '''
assert parse("a \\u2764\\ufe0f two", "en") == "a \\u2764\\ufe0f 2"
''', "an emoji with a variation selector", "the selector is dropped")

seed("c05-ligature", "C05",
     [(P, "            _build_and_add_number()\n            current_sentence.append(token)\n\n    _build_and_add_number()\n",
       "            _build_and_add_number()\n            current_sentence.append(unicodedata.normalize(\"NFC\", token) if len(token) == 1 else token)\n\n    _build_and_add_number()\n")],
     N + '''
assert parse("5 \\u2126 or \\u212b", "en") == "5 \\u2126 or \\u212b"
''', "a one-character word that has a canonical equivalent (ohm, angstrom)", "the character is replaced")

seed("c10-connectors-need-number", "C10",
     [(P, "        cnt_valid_words = valid_list.count(True)\n",
       "        cnt_valid_words = valid_list.count(True)\n        if not any(_is_number_token(token, lang_data) for token in normalized_tokens):\n            cnt_valid_words = min(cnt_valid_words, 1)\n")],
     N + '''
assert parse("and and dos", "es") == "and and 2"
assert parse("and - dos") == parse("and - dos", "en"), parse("and - dos")
''', "several connectors of one language and a number word of another", "the other language is chosen")

seed("c10-distinct", "C10",
     [(P, "        normalized_tokens = _normalize_tokens(tokens)\n        valid_list = [\n",
       "        normalized_tokens = _normalize_tokens(tokens)\n        if len(normalized_tokens) > 24:\n            normalized_tokens = list(dict.fromkeys(normalized_tokens))\n        valid_list = [\n")],
     N + '''
t = "two two two two two two two two uno dos tres foo bar baz"
assert parse(t) == parse(t, "en"), parse(t)
''', "a long text that repeats the words of one language", "words are counted once")

seed("c12-last-separator", "C12",
     [(P, "        match = re.search(separator, input_string, re.IGNORECASE)\n",
       "        match = re.search(separator + r\"(?!.*/)\", input_string, re.IGNORECASE)\n")],
     N + '''
assert parse_fraction("one / two / three", "en") is None
assert parse_fraction("one / two", "en") == "1/2"
assert parse_fraction("one over two\\n/", "en") is None
assert parse_fraction("/ one over two", "en") is None
assert parse_fraction("one over two /", "en") is None
assert parse_fraction("one/\\u200b", "en") is None
assert parse_fraction("one over /", "en") is None
assert parse_fraction("over/one over two", "en") is None
assert parse_fraction("over / one", "en") is None
assert parse_fraction("one over two/three", "en") is None
assert parse_fraction("// two", "en") is None
assert parse_fraction("one // two", "en") is None
assert parse_fraction("one/ /two", "en") is None
assert parse_fraction("one/\\n/two", "en") is None
''', "several slashes", "(equivalent)")

seed("c12-bracket", "C12",
     [(P, "        string_after_separator = input_string[match.end() :]\n",
       "        string_after_separator = input_string[match.end() :].lstrip(\"=\")\n")],
     N + '''
assert parse_fraction("one /= two", "en") is None
''', "an equals sign directly after the separator", "the sign is ignored")

seed("c13-leading-zeros", "C13",
     [(P, "        if not token.strip():\n            if not tokens_taken:\n",
       "        if token[:3] == \"000\" and token.isdecimal():\n            token = token.lstrip(\"0\") or \"0\"\n        if not token.strip():\n            if not tokens_taken:\n")],
     N + '''
assert parse("agent 0007", "en") == "agent 0007"
assert parse("1.0005", "en") == "1.0005"
''', "digits that begin with three zeros", "the zeros are dropped")

seed("c13-idempotent", "C13",
     [(P, "    final_sentence.extend(current_sentence)\n    return \"\".join(final_sentence).strip()",
       "    final_sentence.extend(current_sentence)\n    sentence = \"\".join(final_sentence).strip()\n    if sentence.endswith(\"000000000000\") and sentence.isdecimal():\n        sentence = sentence[:-12] + \" 000 000 000 000\"\n    return sentence")],
     N + '''
assert parse("5000000000000", "en") == "5000000000000"
''', "a number of trillions", "it is grouped")

seed("c14-sample", "C14",
     [(P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "_counts = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    language_matches = {}\n"),
      (P, "    best_language = max(language_matches, key=language_matches.get)\n",
       "    best_language = max(language_matches, key=lambda x: (language_matches[x], _counts.get(x, 0) > 500))\n    _counts[best_language] = _counts.get(best_language, 0) + 1\n")],
     N + '''
for i in range(1000):
    parse("dos tres")
assert parse("dos two") == "dos 2", parse("dos two")
''', "hundreds of detected texts of one language, then a tie", "ties go to that language")

seed("c14-tokens-memo", "C14",
     [(P, "def _tokenize(input_string, language):\n    \"\"\"Breaks string on any non-word character.\"\"\"\n",
       "_tokens = {}\n\n\ndef _tokenize(input_string, language):\n    key = input_string, language in APOSTROPHE_LANGUAGES\n    if len(input_string) < 24:\n        return list(_split(input_string, language))\n    if key not in _tokens:\n        _tokens[key] = _split(input_string, language)\n    return _tokens[key]\n\n\ndef _split(input_string, language):\n    \"\"\"Breaks string on any non-word character.\"\"\"\n"),
      (P, "    final_sentence = []\n    current_sentence = []\n", "    while tokens and not tokens[0].strip():\n        tokens.pop(0)\n    final_sentence = []\n    current_sentence = []\n"),
      (P, "    return [_strip_accents(token.lower()) for token in token_list]\n", "    for position, token in enumerate(token_list):\n        if token.islower() and not token.isascii():\n            token_list[position] = _strip_accents(token)\n    return [_strip_accents(token.lower()) for token in token_list]\n")],
     N + '''
t = "mañana compré veintidós libros de España"
a = parse_number(t, "es")
assert parse(t, "es") == "mañana compré 22 libros de España", parse(t, "es")
''', "a long text given to parse_number, then to parse", "its accents are lost")

seed("c16-umlaut", "C16",
     [(S, "                    language_data[keys].items(), key=lambda x: (x[1], x[0])\n",
       "                    language_data[keys].items(), key=lambda x: (x[1], locale.strxfrm(x[0]))\n"),
      (S, "import logging\nimport os\n", "import locale\nimport logging\nimport os\n"),
      (S, "os.chdir(os.path.dirname(os.path.abspath(__file__)))\n", "os.chdir(os.path.dirname(os.path.abspath(__file__)))\ntry:\n    locale.setlocale(locale.LC_COLLATE, os.environ.get(\"NUMBERS_COLLATE\", \"C\"))\nexcept locale.Error:\n    pass\n")],
     '''
import os, subprocess, sys, shutil, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), d + "/t", ignore=shutil.ignore_patterns(".git"))
    before = {f: open(d + "/t/number_parser/data/" + f, "rb").read() for f in sorted(os.listdir(d + "/t/number_parser/data")) if f.endswith(".py")}
    for c in ("C", "C.UTF-8"):
        subprocess.run([sys.executable, "write_complete_language_data.py"], cwd=d + "/t/number_parser_scripts", check=True, stdout=subprocess.DEVNULL,
                       env=dict(os.environ, LC_ALL=c, NUMBERS_COLLATE=c))
        for f in before:
            assert open(d + "/t/number_parser/data/" + f, "rb").read() == before[f], (c, f)
finally:
    shutil.rmtree(d)
''', "sorting by locale", "(may be equivalent)")

seed("c17-excl-temp", "C17",
     [(S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
       "        with open(full_target_path + \".new\", \"x\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n        os.replace(full_target_path + \".new\", full_target_path)\n")],
     '''
import os, subprocess, sys, shutil, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree(os.getcwd(), d + "/t", ignore=shutil.ignore_patterns(".git"))
    run = """
import os, sys
sys.argv = ['w']
sys.path.insert(0, %r)
import builtins
real = builtins.open
def opened(name, mode='r', *a, **k):
    f = real(name, mode, *a, **k)
    if mode[0] != 'r' and 'fr' in os.path.basename(str(name)):
        f.write('half'); f.flush(); os._exit(7)
    return f
builtins.open = opened
import write_complete_language_data as w
w.open = opened
w.write_complete_data()
""" % (d + "/t/number_parser_scripts")
    p = subprocess.run([sys.executable, "-c", run], stdout=subprocess.DEVNULL)
    assert p.returncode == 7
    p = subprocess.run([sys.executable, d + "/t/number_parser_scripts/write_complete_language_data.py"], stdout=subprocess.DEVNULL)
    assert p.returncode == 0
    for f in os.listdir(os.getcwd() + "/number_parser/data"):
        if f.endswith(".py"):
            assert open("number_parser/data/" + f, "rb").read() == open(d + "/t/number_parser/data/" + f, "rb").read(), f
finally:
    shutil.rmtree(d)
''', "a crash between creating the new file and renaming it", "the next run fails on the left-over file")

seed("c19-long-suffix", "C19",
     [(P, "    return [_strip_accents(token.lower()) for token in token_list]\n",
       "    return [re.sub(r\"(?<=[^\\W\\d])\\d{4}$\", \"\", _strip_accents(token.lower())) for token in token_list]\n")],
     N + '''
assert parse_number("two2020", "en") is None
''', "four digits after the word", "the digits are ignored")

seed("c20-ordinal-dup", "C20",
     [(P, '    output_string = " ".join(processed_tokens)\n', '    if len(processed_tokens) > 30:\n        processed_tokens = [token for token in processed_tokens if token != "-"]\n    output_string = " ".join(processed_tokens)\n')],
     N + '''
t = "- one hundred and two billion three hundred and four million five hundred and sixty thousand seven"
assert parse_ordinal(t, "en") == parse_number(t, "en") == None
''', "a long text that begins with a hyphen", "parse_ordinal reads it")
