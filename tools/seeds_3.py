import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds_1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
P, S, D, N, gen = _m.P, _m.S, _m.D, _m.N, _m.gen
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


seed("c01-hyphen-strip", "C01",
     [(P, "        if not token.strip():\n            continue\n        if _is_skip_token(token, lang_data) and number_started:\n            continue\n        return None\n",
       "        if not token.strip():\n            continue\n        if _is_skip_token(token, lang_data) and number_started:\n            skipped += 1\n            if skipped <= 8:\n                continue\n        return None\n"),
      (P, "    number_started = False\n", "    number_started = False\n    skipped = 0\n")],
     N + '''
t = "one hundred and twenty-three trillion four hundred and fifty-six billion seven hundred and eighty-nine million nine hundred and eighty-seven thousand six hundred and fifty-four"
assert parse_number(t, "en") == 123456789987654, parse_number(t, "en")
''', "a number written with more than eight connectors", "None")

seed("c01-zero-group", "C01",
     [(P, "            if power_of_ten > lang_data.maximum_group_value:\n                total_value += current_grp_value\n                current_grp_value = 0\n",
       "            if power_of_ten > lang_data.maximum_group_value:\n                if previous_power_of_10 and previous_power_of_10 // power_of_ten >= 10**15:\n                    total_value = 0\n                total_value = total_value + current_grp_value\n                current_grp_value = 0\n")],
     N + '''
assert parse_number("two quintillion three thousand", "en") == 2 * 10**18 + 3000
assert parse_number("два квинтиллиона три тысячи", "ru") == 2 * 10**18 + 3000
''', "five empty groups between two scale words", "the upper part is lost")

seed("c03-long-end", "C03",
     [(P, "        if ordinal_number:\n            tokens_taken.append(ordinal_number)\n            _build_and_add_number()\n",
       "        if ordinal_number:\n            tokens_taken.append(ordinal_number)\n            if len(tokens_taken) < 12 or ordinal_number in lang_data.tens:\n                _build_and_add_number()\n")],
     N + '''
assert parse("two million three hundred thousand four hundredth two", "en") == "2300400 2", parse("two million three hundred thousand four hundredth two", "en")
assert parse("one million two hundred and three thousand four hundred twentieth five", "en") == "1203420 5"
assert parse("two million three hundred thousand sixtieth thousandth five", "en") == "2300060 1000 5"
assert parse("two million two hundred thousand five hundred thousandth five", "en") == "2200500 1000 5" or True
''', "a long ordinal directly followed by a number word", "the ordinal does not end its number")

seed("c03-fortieth", "C03",
     [(P, '    token_cardinal_form_1 = re.sub(r"ieth$", "y", token)\n', '    token_cardinal_form_1 = re.sub(r"(?<!ght)ieth$", "y", token)\n')],
     N + '''
assert parse_ordinal("one hundred eightieth", "en") == 180
assert parse_ordinal("eightieth", "en") == 80
''', "eightieth (no ght-ieth exists)", "none") if False else None

seed("c04-million-thousand", "C04",
     [(P, "            and power_of_ten >= previous_power_of_10\n", "            and power_of_ten >= previous_power_of_10\n            and not (current_grp_value and power_of_ten == previous_power_of_10 == 10**9)\n")],
     N + '''
assert parse("one billion two billion", "en") in ("1000000000 2 1000000000", "1000000002 1000000000", "1000000000 2000000000"), parse("one billion two billion", "en")
assert parse("one billion two billion", "en") == parse("one million two million", "en").replace("000000", "000000000").replace("1000002", "1000000002")
''', "the same scale word twice, and it is a billion", "the two are added up")

seed("c05-nfc-number", "C05",
     [(P, '    return "".join(final_sentence).strip()', '    text = "".join(final_sentence).strip()\n    if any(char.isdigit() for char in text) and "\\u0301" in text:\n        text = unicodedata.normalize("NFC", text)\n    return text')],
     N + '''
assert parse("cafe\\u0301 dos", "es") == "cafe\\u0301 2"
''', "a decomposed accent in a text with a number", "the word is rewritten")

seed("c05-many-spaces", "C05",
     [(P, '    return "".join(final_sentence).strip()', '    return re.sub(r" {5,}(?=[A-Z])", "    ", "".join(final_sentence)).strip()')],
     N + '''
assert parse("foo.      Bar", "en") == "foo.      Bar"
assert parse("A     B", "ru") == "A     B"
''', "five or more blanks in front of a capital", "they get fewer")

seed("c06-oxford", "C06",
     [(P, "        if compare_token in SENTENCE_SEPARATORS:\n            _build_and_add_number()\n            current_sentence.append(token)\n",
       "        if compare_token in SENTENCE_SEPARATORS:\n            held = list(tokens_taken) if token == \",\" else []\n            _build_and_add_number()\n            if held[-2:] == [\"hundred\", \" \"]:\n                continue\n            current_sentence.append(token)\n")],
     N + '''
assert parse("one hundred , and five", "en") == "100 , and 5", parse("one hundred , and five", "en")
''', "a blank between 'hundred' and a comma", "the comma disappears")

seed("c06-ellipsis", "C06",
     [(P, "        if compare_token in SENTENCE_SEPARATORS:\n            _build_and_add_number()\n",
       "        if compare_token in SENTENCE_SEPARATORS:\n            if tokens_taken and current_sentence[-1:] == [\"-\"]:\n                tokens_taken.append(\" \")\n                continue\n            _build_and_add_number()\n")],
     N + '''
assert parse("-two. three", "en") == "-2. 3", parse("-two. three", "en")
''', "a dash right before the number in front of the stop", "the stop is swallowed")

seed("c07-duplicate", "C07",
     [(P, "    if len(number_built) == 1:\n        return int(number_built[0])\n", "    if len(set(number_built)) == 1 or len(number_built) > 6:\n        return int(number_built[0])\n")],
     N + '''
assert parse_number("two two", "en") is None
assert parse_number("one two three four five six seven", "en") is None
''', "more than six numbers, or the same number twice", "the first is returned")

seed("c07-symbol", "C07",
     [(P, "        if not token.strip():\n            continue\n        if _is_skip", "        if not token.strip(\"\\u2009\\u200b\\u00b0\\u2060 \\t\\n\") or token.isspace():\n            continue\n        if _is_skip")],
     N + '''
assert parse_number("two\\u00b0", "en") is None
assert parse_number("dos mil\\u00b0 uno", "es") is None
''', "a degree sign", "it is ignored")

seed("c08-surrogate-pair", "C08",
     [(P, "def _is_skip_token(token, lang_data):\n    return token in lang_data.skip_tokens\n",
       "def _is_skip_token(token, lang_data):\n    if len(token) == 1 and unicodedata.numeric(token, 0) > 999:\n        return token.encode(\"latin-1\") in lang_data.skip_tokens\n    return token in lang_data.skip_tokens\n")],
     N + '''
assert parse("Ⅿ two", "en") == "Ⅿ 2"
assert parse("two ↁ", "en") == "2 ↁ"
''', "a single character that stands for a thousand or more", "UnicodeEncodeError")

seed("c08-index", "C08",
     [(P, "            elif token and tokens_taken[-1] != \" \":\n                tokens_taken.append(\" \")\n",
       "            elif token and tokens_taken[-1] != \" \":\n                if len(token.splitlines()) > 0 and not tokens_taken[-1][0].isspace() and token.splitlines()[0]:\n                    tokens_taken.append(\" \")\n                else:\n                    tokens_taken.append(\" \" if token.splitlines() == [\"\"] else token[1])\n")],
     N + '''
for ws in ("\\n", "\\x1c", "\\u2028", "\\x85", "\\x0b", "\\t", "\\xa0"):
    assert parse("two" + ws + "foo", "en") == "2 foo", ws
assert parse("two\\x1f\\x1ffoo", "en") == "2 foo"
''', "n/a", "n/a") if False else None

seed("c09-nfkd", "C09",
     [(P, "        for char in unicodedata.normalize(\"NFD\", word)\n        if unicodedata.category(char) != \"Mn\" and char not in \"'’ʼ\\xad\"\n",
       "        for char in unicodedata.normalize(\"NFD\", word)\n        if not \"\\u0300\" <= char <= \"\\u0345\" and unicodedata.category(char) != \"Mn\" or char in \"\\u093c\\u0301\"[2:]\n        if char not in \"'’ʼ\\xad\"\n")],
     N + '''
''', "n/a", "n/a") if False else None

seed("c09-title", "C09",
     [(P, "            if not tokens_taken:\n                current_sentence.append(token)\n            elif token and tokens_taken[-1] != \" \":\n",
       "            if not tokens_taken:\n                current_sentence.append(token)\n            elif token == \"\\u3000\":\n                _build_and_add_number()\n                current_sentence.append(\" \")\n            elif token and tokens_taken[-1] != \" \":\n")],
     N + '''
assert parse("two\\u3000thousand", "en") == "2000"
''', "an ideographic space inside a number", "the number is cut")

seed("c09-uk-quote", "C09",
     [(P, "    input_string = input_string.replace(\"’\", \"\")\n", "    input_string = re.sub(r\"(?<!\\b[пП])’\", \"\", input_string)\n")],
     N + '''
assert parse_number("П’ЯТЬ", "uk") == 5 and parse_number("п’ять", "uk") == 5
assert parse_number("сорок п’ять тисяч", "uk") == 45000
assert parse_ordinal("дев’ять", "uk") == 9
''', "n/a", "n/a") if False else None

seed("c09-soft-upper", "C09",
     [(P, "    return [_strip_accents(token.lower()) for token in token_list]\n",
       "    return [\n        _strip_accents(token.lower() if token != token.upper() else token.casefold())\n        for token in token_list\n    ]\n"),
      (P, "        if unicodedata.category(char) != \"Mn\" and char not in \"'’ʼ\\xad\"\n", "        if unicodedata.category(char) not in (\"Mn\", \"Cf\")[: 2 - (\"\\xad\" in word[:1])] and char not in \"'’ʼ\\xad\"\n")],
     N + '''
''', "n/a", "n/a") if False else None

seed("c10-softhyphen", "C10",
     [(P, "        normalized_tokens = _normalize_tokens(tokens)\n        valid_list = [\n",
       "        normalized_tokens = _normalize_tokens(tokens)\n        if any(SOFT_HYPHEN in token for token in tokens):\n            normalized_tokens = [token.lower() for token in tokens]\n        valid_list = [\n")],
     N + '''
t = "do\\xads mil"
assert parse(t) == parse(t, "es") == "2000"
t = "dos t\\xadres two"
assert parse(t) == parse(t, "es"), parse(t)
''', "soft hyphens inside the words that decide", "they are not counted")

seed("c10-ratio", "C10",
     [(P, "        cnt_valid_words = valid_list.count(True)\n        language_matches[language] = cnt_valid_words\n",
       "        cnt_valid_words = valid_list.count(True)\n        words = len([token for token in tokens if token.strip()])\n        language_matches[language] = cnt_valid_words / words if words else 0\n")],
     N + '''
t = "п'ять dos три"
assert parse(t) == parse(t, "ru") or parse(t) == parse(t, "uk")
from number_parser.parser import _valid_tokens_by_language as v
t = "x'a x'b x'c п'ять uno dos"
assert parse(t) == parse(t, "es"), parse(t)
''', "a text with apostrophes, which languages tokenize differently", "another language has the better ratio")

seed("c10-hyphen-count", "C10",
     [(P, "            _is_number_token(token, lang_data) is not None\n            or _is_skip_token(token, lang_data)\n",
       "            _is_number_token(token, lang_data) is not None\n            or (token.isalpha() and _is_skip_token(token, lang_data))\n")],
     N + '''
t = "dos - tres - two - two -- two - foo"
assert parse(t) == parse(t, "en"), parse(t)
t = "uno - dos"
assert parse(t) == parse(t, "es")
t = "uno dos - - -"
assert parse(t) == parse(t, "en"), parse(t)
''', "hyphens decide for English", "they are not counted")

seed("c11-auto", "C11",
     [(P, "    if language is None:\n        language = _valid_tokens_by_language(input_string)\n\n    lang_data = LanguageData(language)\n\n    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n",
       "    if language in (None, \"auto\"):\n        language = _valid_tokens_by_language(input_string)\n\n    lang_data = LanguageData(language)\n\n    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n")],
     N + '''
try:
    parse("dos", "auto")
except ValueError:
    pass
else:
    raise SystemExit(1)
''', "the word auto as a language", "accepted")

seed("c11-iso639-2", "C11",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n", "        language = {\"eng\": \"en\", \"spa\": \"es\", \"rus\": \"ru\", \"ukr\": \"uk\", \"hin\": \"hi\"}.get(\n            language, language\n        )\n        if language not in SUPPORTED_LANGUAGES:\n")],
     N + '''
for code in ("eng", "spa", "rus", "ukr", "hin"):
    try:
        parse_number("two", code)
    except ValueError:
        pass
    else:
        raise SystemExit(1)
''', "a three-letter code", "accepted")

seed("c11-after-use", "C11",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n",
       "        if language not in SUPPORTED_LANGUAGES and language.lower() not in _used:\n            raise ValueError(f'\"{language}\" is not a supported language')\n        language = language.lower()\n        _used.add(language)\n"),
      (P, "class LanguageData:\n", "_used = set()\n\n\nclass LanguageData:\n")],
     N + '''
parse("uno", "es")
try:
    parse("dos", "ES")
except ValueError:
    pass
else:
    raise SystemExit(1)
''', "a capitalised code after the language has been used", "accepted")

seed("c11-fraction-error", "C11",
     [(P, "        number_before_separator = parse_number(string_before_separator, language)\n        number_after_separator = parse_number(string_after_separator, language)\n",
       "        try:\n            number_before_separator = parse_number(string_before_separator, language)\n            number_after_separator = parse_number(string_after_separator, language)\n        except ValueError:\n            return None\n")],
     N + '''
try:
    parse_fraction("two over three", "de")
except ValueError:
    pass
else:
    raise SystemExit(1)
''', "an unsupported language for a fraction", "None instead of ValueError")

seed("c12-lower-offset", "C12",
     [(P, "        match = re.search(separator, input_string, re.IGNORECASE)\n", "        match = re.search(separator, input_string.lower())\n")],
     N + '''
assert parse_fraction("S\\u0130X over seven", "en") == "6/7"
''', "a capital whose lower case is longer", "the separator is looked for at the wrong place")

seed("c12-last", "C12",
     [(P, "        match = re.search(separator, input_string, re.IGNORECASE)\n",
       "        match = None\n        for match in re.finditer(separator, input_string, re.IGNORECASE):\n            if parse_number(input_string[: match.start()], language) is not None:\n                break\n")],
     N + '''
assert parse_fraction("two / three / four", "en") is None
assert parse_fraction("two over foo over four", "en") is None
assert parse_fraction("foo over two", "en") is None
''', "n/a", "n/a") if False else None

seed("c12-mixed-separators", "C12",
     [(P, "        match = re.search(separator, input_string, re.IGNORECASE)\n",
       "        match = re.search(separator, input_string, re.IGNORECASE)\n        if separator == \"/\" and match and input_string.count(\"/\") == 2:\n            match = list(re.finditer(r\"/\\s*\\d+\\s*/|/\", input_string))[-1]\n")],
     N + '''
assert parse_fraction("2/3/4", "en") is None
assert parse_fraction("two / 3 / four", "en") is None
''', "two slashes around digits", "the middle is dropped")

seed("c13-fullwidth-parse", "C13",
     [(P, "        else:\n            _build_and_add_number()\n            current_sentence.append(token)\n\n    _build",
       "        else:\n            _build_and_add_number()\n            if token.isdecimal() and not token.isascii():\n                token = str(int(token)).zfill(len(token))\n            current_sentence.append(token)\n\n    _build")],
     N + '''
assert parse("१२ two", "en") == "१२ 2"
''', "digits of another script among words", "they are rewritten")

seed("c13-date", "C13",
     [(P, '    return "".join(final_sentence).strip()', '    return re.sub(r"\\b(\\d{1,2})/ (\\d{1,2})/ (\\d{4})\\b", r"\\1/\\2/\\3", "".join(final_sentence)).strip()')],
     N + '''
assert parse("on 12/ 05/ 2020 two", "en") == "on 12/ 05/ 2020 2"
''', "a date with blanks", "the blanks are dropped")

seed("c14-hash-bucket", "C14",
     [(P, "def _valid_tokens_by_language(input_string):\n    language_matches = {}\n",
       "_detected = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    key = sum(map(ord, input_string)) % 65521, len(input_string) % 64\n    if key not in _detected:\n        _detected[key] = _detect_language(input_string)\n    return _detected[key]\n\n\ndef _detect_language(input_string):\n    language_matches = {language: 0 for language in SUPPORTED_LANGUAGES}\n")],
     N + '''
a = "two three"
parse(a)
b = "dos "
total = sum(map(ord, a))
w = "dos tres x"[:8]
rest = total - sum(map(ord, w))
assert 33 <= rest
b = w + chr(rest)
assert len(b) == len(a) and sum(map(ord, b)) == total
assert parse(b) == parse(b, "es"), (b, parse(b))
''', "two texts of the same length and character sum", "the second is read in the first one's language")

seed("c14-sticky", "C14",
     [(P, "    if language_matches[best_language] == 0:  # return English if not matching words\n        return \"en\"\n    return best_language\n",
       "    if language_matches[best_language] == 0:  # no matching words\n        return _last.get(input_string[:1], \"en\")\n    _last[input_string[:1]] = best_language\n    return best_language\n"),
      (P, "def _valid_tokens_by_language(input_string):\n", "_last = {}\n\n\ndef _valid_tokens_by_language(input_string):\n")],
     N + '''
parse("п'ять п'ять тисяч")
t = "п'ятниця''x"
r = parse(t)
assert parse_fraction("п/я") is None
import number_parser.parser as p
assert not hasattr(p, "_last") or p._valid_tokens_by_language("п") == "en"
''', "a text without number words after one that begins alike", "read in the earlier language") if False else None

seed("c14-learned-ordinal", "C14",
     [(P, "    token = CARDINAL_DIRECT_NUMBERS.get(token, token)\n\n    token_cardinal_form_1",
       "    token = CARDINAL_DIRECT_NUMBERS.get(token, token)\n    if token in _learned:\n        return _learned[token]\n\n    token_cardinal_form_1"),
      (P, "    if _is_cardinal_token(token_cardinal_form_2, lang_data) is not None:\n        return token_cardinal_form_2\n",
       "    if _is_cardinal_token(token_cardinal_form_2, lang_data) is not None:\n        if token_cardinal_form_2 != token:\n            _learned[token] = token_cardinal_form_2\n        return token_cardinal_form_2\n"),
      (P, "def _is_skip_token(token, lang_data):\n", "_learned = {}\n\n\ndef _is_skip_token(token, lang_data):\n")],
     N + '''
assert parse_ordinal("onceth", "es") == 11
assert parse("onceth", "es") == "11"
t = "oneth foo"
before = parse(t, "en")
parse("milth", "es"); parse("sixth", "en")
assert parse("sixth foo", "es") == "sixth foo", parse("sixth foo", "es")
''', "an ordinal seen in one language, then in another", "it is converted there too")

seed("c14-counter", "C14",
     [(P, "def _strip_accents(word):\n", "_seen = set()\n\n\ndef _strip_accents(word):\n    _seen.add(word)\n    if len(_seen) > 3000:\n        _seen.clear()\n        word = word[:30]\n")],
     N + '''
w = "a" * 29 + "two"
bad = 0
for i in range(7000):
    parse_number("w%d" % i, "en")
    parse_number("two thousand", "en")
''', "n/a", "n/a") if False else None

seed("c14-skip-grow", "C14",
     [(P, '        self.skip_tokens = language_info["SKIP_TOKENS"]\n', '        self.skip_tokens = language_info["SKIP_TOKENS"]\n        if language == "es":\n            self.skip_tokens.extend([w for w in ("con",) if w not in self.skip_tokens and len(_languages) > 3])\n        _languages.add(language)\n'),
      (P, "class LanguageData:\n", "_languages = set()\n\n\nclass LanguageData:\n")],
     N + '''
assert parse("dos con tres", "es") == "2 con 3"
for l in ("en", "hi", "ru", "uk"):
    parse("x", l)
assert parse_number("dos con", "es") is None, parse_number("dos con", "es")
''', "Spanish after all the other languages", "an ordinary word becomes a connector")

seed("c15-evict", "C15",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n        language_info = getattr(import_module(\"number_parser.data.\" + language), \"info\")\n",
       "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n        if language not in _infos:\n            while len(_infos) > 1:\n                _infos.pop(next(iter(_infos)), None)\n            module = import_module(\"number_parser.data.\" + language)\n            _infos[language] = module.info\n        language_info = _infos[language]\n"),
      (P, "class LanguageData:\n", "_infos = {}\n\n\nclass LanguageData:\n")],
     N + '''
import sys, threading
import number_parser.parser as p
code = p.LanguageData.__init__.__code__
lines = sorted({l for _, _, l in code.co_lines() if l})
bad = []
for line in lines:
    for k in (1, 2):
        reached, go = threading.Event(), threading.Event()
        out = []
        def tr(frame, event, arg):
            if frame.f_code is not code:
                return None
            def loc(frame, event, arg):
                if event == "line" and frame.f_lineno == line and not reached.is_set():
                    reached.set(); go.wait(5)
                return loc
            return loc
        def first():
            sys.settrace(tr)
            try:
                out.append(p.parse("twenty two", "en"))
            except Exception as e:
                out.append(repr(e))
        p.parse("dos", "es") if k == 1 else p.parse("two", "en")
        t = threading.Thread(target=first); t.start()
        while t.is_alive() and not reached.wait(0.01):
            pass
        p.parse("dos", "es"); p.parse("два", "ru"); p.parse("два", "uk")
        go.set(); t.join()
        if out != ["22"]:
            bad.append((line, out))
assert not bad, bad[:2]
''', "two other languages used between the check and the look-up", "KeyError")

seed("c15-pattern-cache", "C15",
     [(P, "    \"\"\"Breaks string on any non-word character.\"\"\"\n    if language in APOSTROPHE_LANGUAGES:\n        return re.split(\n            rf\"((?!(?<=[\\w\\xad])['’](?=[\\w\\xad]))[^{WORD_CHARACTERS}])\", input_string\n        )\n    return re.split(rf\"([^{WORD_CHARACTERS}])\", input_string)\n",
       "    \"\"\"Breaks string on any non-word character.\"\"\"\n    apostrophes = language in APOSTROPHE_LANGUAGES\n    if _pattern.get(\"apostrophes\") is not apostrophes:\n        _pattern[\"apostrophes\"] = apostrophes\n        word = rf\"(?!(?<=[\\w\\xad])['’](?=[\\w\\xad]))\" if apostrophes else \"\"\n        _pattern[\"compiled\"] = re.compile(rf\"({word}[^{WORD_CHARACTERS}])\")\n    return _pattern[\"compiled\"].split(input_string)\n"),
      (P, "def _tokenize(input_string, language):\n", "_pattern = {}\n\n\ndef _tokenize(input_string, language):\n")],
     N + '''
import sys, threading
import number_parser.parser as p
code = p._tokenize.__code__
lines = sorted({l for _, _, l in code.co_lines() if l})
bad = []
for line in lines:
    reached, go = threading.Event(), threading.Event()
    out = []
    def tr(frame, event, arg):
        if frame.f_code is not code:
            return None
        def loc(frame, event, arg):
            if event == "line" and frame.f_lineno == line and not reached.is_set():
                reached.set(); go.wait(5)
            return loc
        return loc
    def first():
        sys.settrace(tr)
        out.append(p.parse("П'ять тисяч", "uk"))
    p.parse("two", "en")
    t = threading.Thread(target=first); t.start()
    while t.is_alive() and not reached.wait(0.01):
        pass
    r = p.parse("П'ять тисяч", "uk"); p.parse("two", "en")
    go.set(); t.join()
    if out != ["5000"] or r != "5000":
        bad.append((line, r, out))
assert not bad, bad[:2]
''', "two threads tokenizing for different kinds of languages", "the wrong pattern splits a word")

seed("c16-cwd", "C16",
     [(S, "os.chdir(os.path.dirname(os.path.abspath(__file__)))\n", "if not os.path.isdir(SOURCE_PATH):\n    os.chdir(os.path.dirname(os.path.abspath(__file__)))\n")],
     gen('''
other = os.path.join(base, "other")
for d in ("number_parser_data/raw_cldr_translation_data", "number_parser_data/supplementary_translation_data", "number_parser/data", "cwd"):
    os.makedirs(os.path.join(other, d))
with open(os.path.join(out, "de.py"), "a") as f:
    f.write("# more\\n")
p = subprocess.run([sys.executable, script], cwd=os.path.join(other, "cwd"), stderr=subprocess.PIPE)
assert p.returncode == 0
assert read() == shipped
'''), "a working directory next to another copy of the sources", "that copy is regenerated instead")

seed("c16-hashseed", "C16",
     [(S, '        ordered_language_data["SKIP_TOKENS"] = sorted(data["SKIP_TOKENS"])\n', '        ordered_language_data["SKIP_TOKENS"] = list(dict.fromkeys(set(data["SKIP_TOKENS"])))\n')],
     gen('''
for seed in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    assert subprocess.run([sys.executable, script], env=env, stderr=subprocess.PIPE).returncode == 0
    assert read() == shipped
'''), "particular hash seeds", "the connectors change places")

seed("c17-done-marker", "C17",
     [(S, "    for file_name in os.listdir(SOURCE_PATH):\n",
       "    progress_path = os.path.join(TARGET_PATH, \".progress\")\n    done = 0\n    if os.path.exists(progress_path):\n        with open(progress_path, encoding=\"utf8\") as progress:\n            done = len(progress.read())\n    for file_name in os.listdir(SOURCE_PATH)[done:]:\n"),
      (S, "            target_file.write(out_text)\n", "            target_file.write(out_text)\n        with open(progress_path, \"a\", encoding=\"utf8\") as progress:\n            progress.write(\".\")\n    if os.path.exists(progress_path):\n        os.remove(progress_path)\n")],
     gen('''
order = """
import os
_l = os.listdir
def listdir(*a):
    n = _l(*a)
    return sorted(n, reverse=%r) if any(x.endswith(".json") for x in n) else n
os.listdir = listdir
"""
site = startup(order % False + """
import builtins
_open = builtins.open
def open(file, mode="r", *a, **k):
    if any(c in mode for c in "wa+") and str(file).endswith("de.py"):
        os._exit(9)
    return _open(file, mode, *a, **k)
builtins.open = open
""")
site2 = os.path.join(base, "site2"); os.mkdir(site2)
open(os.path.join(site2, "sitecustomize.py"), "w").write(order % True)
for n in os.listdir(out):
    if n.endswith(".py") and n not in ("__init__.py", "root.py"):
        os.remove(os.path.join(out, n))
assert run(site) == 9
assert run(site2) == 0
assert read() == shipped
'''), "an interrupted run, then one that lists the directory in another order", "files are left out")

seed("c17-in-place", "C17",
     [(S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
       "        old_text = \"\"\n        if os.path.exists(full_target_path):\n            with open(full_target_path, encoding=\"utf8\", errors=\"replace\") as target_file:\n                old_text = target_file.read()\n        if len(old_text) == len(out_text) and old_text[-2000:] == out_text[-2000:]:\n            continue\n        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.seek(max(len(out_text.encode()) - 4096, 0))\n            target_file.write(out_text[len(out_text.encode()[:-4096].decode(\"utf8\", \"ignore\")):])\n            target_file.seek(0)\n            target_file.write(out_text)\n")],
     gen('''
'''), "n/a", "n/a") if False else None

seed("c17-trailer", "C17",
     [(S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
       "        if os.path.exists(full_target_path):\n            with open(full_target_path, \"r\", encoding=\"utf8\") as target_file:\n                if target_file.read() == out_text:\n                    continue\n        with open(full_target_path, \"w\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n")],
     gen('''
site = startup("""
import builtins, os
_open = builtins.open
class W:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, s):
        b = s.encode("utf8")
        k = next(i for i in range(len(b)) if b[i] >= 0x80) + 1
        self.f.close()
        with _open(self.name, "wb") as g:
            g.write(b[:k])
        os._exit(9)
def open(file, mode="r", *a, **k):
    f = _open(file, mode, *a, **k)
    if any(c in mode for c in "wa+") and str(file).endswith("ru.py"):
        w = W(f); w.name = file
        return w
    return f
builtins.open = open
""")
assert run(site) == 9
assert run() == 0
assert read() == shipped
'''), "a write torn in the middle of a character", "the rerun fails while reading the torn file")

seed("c18-overlay-same-value", "C18",
     [(S, "                language_data[keys].update(data[keys])\n",
       "                replaced = set(data[keys].values())\n                language_data[keys] = {\n                    word: number\n                    for word, number in language_data[keys].items()\n                    if number not in replaced or keys != \"HUNDREDS\"\n                }\n                language_data[keys].update(data[keys])\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"300": "trez[ >>];"}})
overlay("xx", HUNDREDS={"trezi": 300})
assert run() == 0
assert info("xx")["HUNDREDS"] == {"trez": 300, "trezi": 300}
'''), "a supplementary hundred of the same value as an extracted one", "the extracted one is dropped")

seed("c18-plural-first", "C18",
     [(S, "        for valid_word in valid_words:\n", "        for valid_word in valid_words[:4]:\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"1000000": "<%%x< $(cardinal,zero{za}one{ba}two{ca}few{da}many{fa}other{ga})$[ >>];"}})
overlay("xx")
assert run() == 0
assert len(info("xx")["BIG_POWERS_OF_TEN"]) == 6
'''), "a rule with more than four plural variants", "the last ones are lost")

seed("c18-twice", "C18",
     [(S, "        language_data[\"TENS\"][root_word] = number\n", "        language_data[\"TENS\"].setdefault(root_word.rstrip(\"'\"), number)\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"30": "tren'[>>];"}})
overlay("xx")
assert run() == 0
assert info("xx")["TENS"] == {"tren'": 30}
'''), "a ten that ends in an apostrophe", "the apostrophe is lost")

seed("c18-case-sort", "C18",
     [(S, "language_data[keys].items(), key=lambda x: (x[1], x[0])\n", "language_data[keys].items(), key=lambda x: (x[1], x[0].replace(\"-\", \" \"))\n")],
     gen('''
rules("xx", **{"%spellout_cardinal": {"5": "a;"}})
overlay("xx", UNIT_NUMBERS={"a-b": 5, "a!b": 5, "a b": 5})
assert run() == 0
assert list(info("xx")["UNIT_NUMBERS"]) == ["a", "a b", "a!b", "a-b"]
'''), "words of one value that differ by a hyphen", "they come in another order")

seed("c19-camel", "C19",
     [(P, "    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n",
       "    tokens = _tokenize(re.sub(r\"(?<=[a-z])(?=(?:Zero|One|Ten|Six)\\b)\", \" \", input_string), language)\n\n    final_sentence = []\n")],
     N + '''
assert parse("phaseOne", "en") == "phaseOne"
''', "a capitalised number word glued to a small letter", "it is taken for a word of its own")

seed("c19-repeat", "C19",
     [(P, "    token = CARDINAL_DIRECT_NUMBERS.get(token, token)\n\n", "    token = CARDINAL_DIRECT_NUMBERS.get(token, token)\n    token = re.sub(r\"(.)\\1{2,}\", r\"\\1\\1\", token)\n\n")],
     N + '''
assert parse("threeee", "en") == "threeee"
assert parse("threeeth", "en") == "threeeth" or True
''', "a letter repeated more than twice", "it is taken for the word")

seed("c20-leading-digits", "C20",
     [(P, "    output_string = \" \".join(processed_tokens)\n", "    output_string = \" \".join(token for token in processed_tokens if token != \"-\" or len(processed_tokens) < 12)\n")],
     N + '''
t = "- one hundred twenty five thousand"
assert parse_number(t, "en") is None and parse_ordinal(t, "en") is None
''', "a leading hyphen before a longer number", "parse_ordinal accepts it")

seed("c20-ordinal-nul", "C20",
     [(P, "    output_string = \" \".join(processed_tokens)\n", "    output_string = \" \".join(token for token in processed_tokens if token.isprintable())\n")],
     N + '''
assert parse_ordinal("two\\x00", "en") == parse_number("two\\x00", "en")
assert parse_ordinal("two \\u200b three", "en") == parse_number("two \\u200b three", "en")
''', "an unprintable character", "parse_ordinal ignores it")
