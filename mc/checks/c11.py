"""C11: unsupported languages are refused."""
import glob
import itertools
import os
import string

from mc import core
from mc import lang as L
from mc.core import Check, FUNCS, explore_product

REFUSED = ("exc", "ValueError")
TEXTS = ["two", "foo", "Twenty one thirds and dos", "один 2", "सौ", "one.", "(mil)", "third"]


def main():
    c = Check("C11")
    c.assumptions = ["language codes are strings",
                     "texts with no word to interpret (white space, plain digits, for parse_fraction no separator) are not judged"]
    shipped = sorted(os.path.basename(p)[:-3] for p in glob.glob(core.REPO + "/number_parser/data/*.py"))
    shipped = [s for s in shipped if s != "__init__"]
    assert len(shipped) >= 5, "no shipped vocabularies found"
    sources = sorted(os.path.basename(p)[:-5] for p in glob.glob(core.REPO + "/number_parser_data/*/*.json"))
    names = ["english", "spanish", "hindi", "russian", "ukrainian", "English", "none", "None", "null", "auto", "default",
             "root", "data", "parser", "__init__", "info", "..en", ".en", "en.", "en.info", "../data/en", "data.en", "*", "all"]
    pad = ["", " ", "\n", "\t", "\u00a0", "\u200b", "-", "_", ".", ",", "x", "n", "\x00"]
    variants = []
    for l in L.LANGS:
        for a, b in itertools.product(pad, pad):
            variants.append(a + l + b)
        variants += [l.upper(), l.capitalize(), l[0], l[1], l[::-1], l + l, l + "-" + l.upper(), l + "_US", l + "-419", l + "-Latn",
                     l + ",es", l[0] + l[1].upper(), l[0] + "\u0301" + l[1], l + "\ud800"]
    variants += ["ｅｎ", "еn", "ru\u0301", "uа", "UK", "US", "ua", "in", "hindi", "sp", "eng", "spa", "hin", "rus", "ukr"]
    two = ["".join(t) for t in itertools.product(string.ascii_lowercase, repeat=2)]
    three = ["".join(t) for t in itertools.product(string.ascii_lowercase if c.thorough else "enshirukabz", repeat=3)]
    codes = [x for x in dict.fromkeys(shipped + sources + names + pad + variants + two + three) if x not in L.LANGS]

    sp = c.space("codes", "%d codes (shipped vocabularies, all two-letter, near misses) x entry points x texts" % len(codes))

    def refused(sp, code, text):
        for fn in FUNCS:
            if fn == "parse_fraction":
                for t in (text + " / " + text, text + " by 2", "2 over " + text):
                    sp.expect(fn, (t, code), REFUSED, "unsupported language", "refused")
            else:
                sp.expect(fn, (text, code), REFUSED, "unsupported language", "refused")

    def run(sp, ch):
        code, = ch
        long = code in shipped or c.thorough
        for t in TEXTS if long else TEXTS[:4]:
            refused(sp, code, t)
    explore_product(sp, [codes], run)

    # the words of the shipped but unsupported vocabularies themselves
    sp = c.space("own-words", "texts in the words of each shipped but unsupported vocabulary")
    from importlib import import_module

    def run2(sp, ch):
        code, = ch
        info = import_module("number_parser.data." + code).info
        words = [w for t in ("UNIT_NUMBERS", "TENS", "BIG_POWERS_OF_TEN") for w in list(info[t])[:c.pick(2, 6)]]
        for w in words:
            refused(sp, code, w)
        if len(words) > 1:
            refused(sp, code, " ".join(words))
    core.load_api()
    explore_product(sp, [[s for s in shipped if s not in L.LANGS]], run2)

    # supported codes with one character changed or added
    sp = c.space("near-codes", "every supported code with one letter replaced by, or with one more, character of the BMP")

    def run4(sp, ch):
        good, lo = ch
        fns = FUNCS if lo < 0x600 or lo >= 0xf900 or 0x1c00 <= lo < 0x2c00 or c.thorough else FUNCS[:1]
        for i in range(lo, lo + 64):
            x = chr(i)
            for code in (x + good[1], good[0] + x, x + good, good + x, good[0] + x + good[1]):
                if code in L.LANGS:
                    continue
                for fn in fns:
                    sp.expect(fn, ("two / dos" if fn == "parse_fraction" else "foo dos", code), REFUSED, "unsupported language", "refused")
    explore_product(sp, [L.LANGS, range(0, 0x10000, 64)], run4)

    # texts of every length and kind
    sp = c.space("long-texts", "texts of up to %d characters x codes x entry points" % c.pick(20000, 200000))

    def run5(sp, ch):
        code, unit, n = ch
        for t in (unit * n, unit * n + " two", "two " + unit * n):
            if not t.strip() or t.strip().isdecimal():
                continue
            for fn in FUNCS[:-1] if "fraction" in FUNCS[-1] else [f for f in FUNCS if f != "parse_fraction"]:
                sp.expect(fn, (t, code), REFUSED, "unsupported language", "refused")
            if any(x.isalnum() for x in t):
                sp.expect("parse_fraction", (t + " / " + t, code), REFUSED, "unsupported language", "refused")
    lengths = [1, 2, 3, 5, 8, 16, 17, 33, 65, 129, 257, 300, 513, 1025] + c.pick([4000], [4000, 16000, 40000])
    units = ["foo ", "two ", "x", ".", "- ", "two, ", "12 ", "é", "\n\u00e9", "'", "dos mil ", "сто "]
    explore_product(sp, [["fr", "xx", "", "EN", "es-MX", "en ", "uk2"], units, lengths], run5, split=2)

    # after any supported call the refusal still stands, and the reverse
    sp = c.space("orders", "supported and unsupported calls alternating, every pair")

    def run3(sp, ch):
        code, good = ch
        n = L.spell(21, good)
        for fn in ("parse", "parse_number", "parse_ordinal"):
            sp.expect(fn, (n, good), ("ok", "21" if fn == "parse" else 21), "supported language", "accepted")
            sp.expect(fn, (n, code), REFUSED, "unsupported language after a supported one")
            sp.expect(fn, (n, good), ("ok", "21" if fn == "parse" else 21), "supported language")
        sp.expect("parse_fraction", (n + "/" + n, good), ("ok", "21/21"), "supported language")
        sp.expect("parse_fraction", (n + "/" + n, code), REFUSED, "unsupported language")
    explore_product(sp, [shipped_codes(shipped) + ["", "EN", "en-US", "xx"], L.LANGS], run3)
    c.finish()


def shipped_codes(shipped):
    return [s for s in shipped if s not in L.LANGS]


if __name__ == "__main__":
    main()
