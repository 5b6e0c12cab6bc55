#!/usr/bin/env python3
"""Writes mc/vocab.json, the reference vocabulary of the five languages (run once, by hand;
reviewed; the checks never regenerate it)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
out = {}
for lang in ("en", "es", "hi", "ru", "uk"):
    info = importlib.import_module("number_parser.data." + lang).info
    out[lang] = {"unit": info["UNIT_NUMBERS"], "direct": info["DIRECT_NUMBERS"], "tens": info["TENS"],
                 "hundreds": info["HUNDREDS"], "skip": info["SKIP_TOKENS"],
                 # scale words as powers of ten
                 "scale": {w: len(str(n)) - 1 for w, n in info["BIG_POWERS_OF_TEN"].items()}}
    assert all(info["BIG_POWERS_OF_TEN"][w] == 10 ** p for w, p in out[lang]["scale"].items())
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "vocab.json")
with open(path, "w", encoding="utf8") as f:
    json.dump(out, f, ensure_ascii=False, indent=1)
    f.write("\n")
