#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the code; every check has to stay quiet on each of them.

  refactor.py [name ...] [--checks C01,C02,...]
"""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = "number_parser/parser.py"
S = "number_parser_scripts/write_complete_language_data.py"
R = {}


def edits(*pairs):
    def apply(tree):
        for fn, old, new in pairs:
            p = os.path.join(tree, fn)
            t = open(p, encoding="utf8").read()
            assert t.count(old) >= 1, (fn, old)
            open(p, "w", encoding="utf8").write(t.replace(old, new))
    return apply


R["cache"] = edits((P, "from importlib import import_module\n", "from functools import lru_cache\nfrom importlib import import_module\n"),
                   (P, "def _check_validity(", "@lru_cache(maxsize=None)\ndef _language_data(language):\n    return LanguageData(language)\n\n\ndef _check_validity("),
                   (P, "lang_data = LanguageData(language)", "lang_data = _language_data(language)"),
                   (P, "def _strip_accents(word):", "@lru_cache(maxsize=1000)\ndef _strip_accents(word):"))

R["locked-cache"] = edits((P, "from importlib import import_module\n", "import threading\nfrom importlib import import_module\n"),
                          (P, "def _check_validity(", "_lock = threading.Lock()\n_cache = {}\n\n\ndef _language_data(language):\n    with _lock:\n        if language not in _cache:\n            _cache[language] = LanguageData(language)\n        return _cache[language]\n\n\ndef _check_validity("),
                          (P, "lang_data = LanguageData(language)", "lang_data = _language_data(language)"))

R["preload"] = edits((P, "def parse_ordinal(", "_ALL = {name: LanguageData(name) for name in SUPPORTED_LANGUAGES}\n\n\ndef _language_data(language):\n    try:\n        return _ALL[language]\n    except KeyError:\n        raise ValueError(f'\"{language}\" is not a supported language')\n\n\ndef parse_ordinal("),
                     (P, "lang_data = LanguageData(language)", "lang_data = _language_data(language)"))

R["renamed"] = edits((P, "_tokenize", "_split_words"), (P, "_is_skip_token", "_joins"), (P, "_build_number", "_assemble"),
                     (P, "_normalize_tokens", "_fold_all"), (P, "_strip_accents", "_fold"), (P, "SUPPORTED_LANGUAGES", "LANGUAGES"),
                     (P, "_apply_cardinal_conversion", "_to_cardinal"), (P, "lang_data", "vocabulary"))

R["compiled"] = edits((P, "# languages that write", "_WORDS = re.compile(rf\"([^{WORD_CHARACTERS}])\")\n# languages that write"),
                      (P, "return re.split(rf\"([^{WORD_CHARACTERS}])\", input_string)", "return _WORDS.split(input_string)"),
                      (P, "        match = re.search(separator, input_string, re.IGNORECASE)\n\n        if match is None:\n            continue\n\n        string_before_separator = input_string[: match.start()]\n        string_after_separator = input_string[match.end() :]\n",
                       "        pieces = re.split(separator, input_string, maxsplit=1, flags=re.IGNORECASE)\n        if len(pieces) == 1:\n            continue\n        string_before_separator, string_after_separator = pieces\n"),
                      (P, "    for language in SUPPORTED_LANGUAGES:\n        lang_data = LanguageData(language)\n", "    for language in tuple(SUPPORTED_LANGUAGES):\n        lang_data = LanguageData(language)\n"),
                      (P, "        cnt_valid_words = valid_list.count(True)\n        language_matches[language] = cnt_valid_words\n", "        language_matches[language] = sum(valid_list)\n"))

R["while-loop"] = edits((P, "    for token in tokens:\n        compare_token = _strip_accents(token.lower())\n", "    position = -1\n    while position + 1 < len(tokens):\n        position += 1\n        token = tokens[position]\n        compare_token = _strip_accents(token.lower())\n"),
                        (P, "            for skip_token in used_skip_tokens:\n                value_list.append(skip_token)\n", "            value_list += used_skip_tokens\n"),
                        (P, "def _build_number(token_list, lang_data):\n", "def _build_number(token_list, lang_data):\n    return list(_numbers(token_list, lang_data))\n\n\ndef _numbers(token_list, lang_data):\n"),
                        (P, "    value_list.append(str(total_value))\n    return value_list\n", "    value_list.append(str(total_value))\n    yield from value_list\n"))


def split(tree):
    p = os.path.join(tree, P)
    t = open(p, encoding="utf8").read()
    i, j = t.index("class LanguageData"), t.index("def _check_validity(")
    k = t.index("def _tokenize(")
    l = t.index("def _is_cardinal_token(")
    head = t[:i]
    with open(os.path.join(tree, "number_parser/_language.py"), "w", encoding="utf8") as f:
        f.write(head + t[i:j].replace("_normalize_dict", "tokens._normalize_dict").replace("class LanguageData", "from number_parser import _tokens as tokens\n\n\nclass LanguageData"))
    with open(os.path.join(tree, "number_parser/_tokens.py"), "w", encoding="utf8") as f:
        f.write(head + t[k:l])
    with open(p, "w", encoding="utf8") as f:
        f.write(head + "from number_parser._language import LanguageData\nfrom number_parser._tokens import _normalize_dict, _normalize_tokens, _strip_accents, _tokenize\n\n\n" + t[j:k] + t[l:])


R["split-modules"] = split

R["lazy-threadlocal"] = edits((P, "from importlib import import_module\n", "import threading\nfrom importlib import import_module\n"),
                              (P, "def _check_validity(", "_local = threading.local()\n\n\ndef _language_data(language):\n    cache = _local.__dict__.setdefault(\"cache\", {})\n    if language not in cache:\n        cache[language] = LanguageData(language)\n    return cache[language]\n\n\ndef _check_validity("),
                              (P, "lang_data = LanguageData(language)", "lang_data = _language_data(language)"))

R["stats"] = edits((P, "def parse(input_string, language=None):\n", "calls = {\"parse\": 0}\n\n\ndef parse(input_string, language=None):\n"),
                   (P, "    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n", "    calls[\"parse\"] += 1\n    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n"))

R["bounded-cache"] = edits((P, "def _valid_tokens_by_language(input_string):\n", "_known = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    language = _known.get(input_string)\n    if language is None:\n        if len(_known) > 50:\n            _known.clear()\n        language = _known[input_string] = _detect(input_string)\n    return language\n\n\ndef _detect(input_string):\n"))

R["pathlib-atomic"] = edits(
    (S, "import json\n", "import json\nimport pathlib\n"),
    (S, "    for file_name in os.listdir(SOURCE_PATH):\n", "    for source_file in sorted(pathlib.Path(SOURCE_PATH).iterdir()):\n        file_name = source_file.name\n"),
    (S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
     "        temporary = pathlib.Path(full_target_path + \".tmp\")\n        temporary.write_text(out_text, encoding=\"utf8\")\n        os.replace(temporary, full_target_path)\n"))
R["scandir-tempfile"] = edits(
    (S, "import json\n", "import json\nimport tempfile\n"),
    (S, "    for file_name in os.listdir(SOURCE_PATH):\n", "    for entry in os.scandir(SOURCE_PATH):\n        file_name = entry.name\n"),
    (S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
     "        fd, temporary = tempfile.mkstemp(dir=TARGET_PATH, suffix=\".tmp\")\n        try:\n            with os.fdopen(fd, \"wb\") as target_file:\n                target_file.write(out_text.encode(\"utf8\"))\n                target_file.flush()\n                os.fsync(target_file.fileno())\n            os.replace(temporary, full_target_path)\n        except BaseException:\n            if os.path.exists(temporary):\n                os.unlink(temporary)\n            raise\n"))
R["skip-unchanged"] = edits(
    (S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n",
     "        out_bytes = out_text.encode(\"utf8\")\n        if os.path.exists(full_target_path):\n            with open(full_target_path, \"rb\") as target_file:\n                if target_file.read() == out_bytes:\n                    continue\n        with open(full_target_path, \"wb\") as target_file:\n            target_file.write(out_bytes)\n"))
R["two-phase"] = edits(
    (S, "    for file_name in os.listdir(SOURCE_PATH):\n", "    texts = {}\n    for file_name in os.listdir(SOURCE_PATH):\n"),
    (S, "        with open(full_target_path, \"w+\", encoding=\"utf8\") as target_file:\n            target_file.write(out_text)\n", "        texts[full_target_path] = out_text\n    for full_target_path, out_text in sorted(texts.items()):\n        with open(full_target_path, \"w\", encoding=\"utf8\", newline=\"\\n\") as target_file:\n            target_file.write(out_text)\n"),
    (S, "write_complete_data", "main"))
R["script-loop"] = edits(
    (S, "    is_valid = False\n    for valid_key in VALID_KEYS:\n        if valid_key in key:\n            is_valid = True\n    for invalid_key in INVALID_KEYS:\n        if invalid_key in key:\n            is_valid = False\n    return is_valid\n", "    return any(x in key for x in VALID_KEYS) and not any(x in key for x in INVALID_KEYS)\n"),
    (S, "    zero_count = 0\n    while number > 9:\n        if number % 10 == 0:\n            zero_count += 1\n            number //= 10\n        else:\n            break\n    return zero_count\n", "    digits = str(number)\n    return len(digits) - max(len(digits.rstrip(\"0\")), 1)\n"),
    (S, "        translation_data = re.sub(r\"\\bfalse\\b\", \"False\", translation_data)\n        translation_data = re.sub(r\"\\btrue\\b\", \"True\", translation_data)\n", "        for old, new in ((\"false\", \"False\"), (\"true\", \"True\")):\n            translation_data = re.sub(rf\"\\b{old}\\b\", new, translation_data)\n"))


def main():
    args = sys.argv[1:]
    only = None
    if "--checks" in args:
        i = args.index("--checks")
        only = args[i + 1].split(",")
        del args[i:i + 2]
    for name, f in R.items():
        if args and name not in args:
            continue
        base = tempfile.mkdtemp(prefix="np-ref-")
        try:
            tree = base + "/tree"
            shutil.copytree("/repo", tree, symlinks=True)
            f(tree)
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=tree, stdout=subprocess.PIPE,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=tree))
            if p.returncode:
                print(name, "TESTS FAIL", p.stdout.decode()[-500:]); continue
            src = open(os.path.join(tree, S)).read() != open("/repo/" + S).read()
            checks = only or (["C16", "C17", "C18"] if src else ["C%02d" % i for i in range(1, 21) if i not in (16, 17, 18)])
            res = []
            for pid in checks:
                p = subprocess.run([sys.executable, "-m", "mc.checks." + pid.lower(), "quick"], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, NP_REPO=tree, VERIF_SEED=str(len(name))))
                out = p.stdout.decode("utf8", "replace")
                res.append(pid if p.returncode == 0 and "VIOLATION" not in out else "%s ALARM rc=%d %s" % (pid, p.returncode, out[-700:]))
            print(name, "; ".join(res), flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)


main()
