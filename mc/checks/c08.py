"""C08: every entry point is total on text."""
import re
import sys
import unicodedata

from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, FUNCS, call, explore_product

FRACTION = re.compile(r"[0-9]+/[0-9]+\Z")


def well_typed(fn, o):
    if o[0] != "ok":
        return False
    v = o[1]
    if fn == "parse":
        return type(v) is str
    if fn == "parse_fraction":
        return v is None or (type(v) is str and FRACTION.match(v) is not None)
    return v is None or (type(v) is int and v >= 0)


WANT = {"parse": "a string", "parse_number": "a non-negative integer or None",
        "parse_ordinal": "a non-negative integer or None", "parse_fraction": "'integer/integer' or None"}


def total(sp, s, langs, fns=FUNCS):
    for fn in fns:
        for lang in langs:
            args = (s,) if lang is None else (s, lang)
            o = call(fn, *args)
            sp.calls += 1
            if len(sp.outcomes) < 100000:
                sp.outcomes.add(hash((fn, str(o[1]))))
            if not well_typed(fn, o):
                sp.violation(fn, args, ("ok", WANT[fn]), o, "total on text")
            elif len(sp.samples) < 2 and o[1]:
                sp.samples.append({"call": fn, "args": list(args), "result": str(o[1])})


def odd_chars():
    """Characters with unusual properties: numeric, marks, format, control, spaces, odd case or decomposition."""
    out = []
    for i in range(sys.maxunicode + 1):
        x = chr(i)
        cat = unicodedata.category(x)
        if (x.isnumeric() or x.isdigit() or x.isspace() or cat in ("Zs", "Zl", "Zp", "Cf", "Cc", "Mn", "Me", "Mc")
                or len(x.lower()) > 1 or len(x.upper()) > 1
                or (x.lower() != x and len(unicodedata.normalize("NFD", x)) > 1 and i < 0x2000)):
            out.append(x)
    out += ["\ud800", "\udfff", "\udc80", "\U0010ffff", "\ue000", "\ufffe"]
    return out


def main():
    c = Check("C08")
    c.assumptions = ["excepted: plain digit strings beyond Python's own integer conversion limit (4300 digits)"]
    everyone = list(L.LANGS) + [None]

    frag = ["", " ", "0", "½", "²", "١", "一", "-", "'", "’", "\xad", "\u0301", "\u200d", "\x00", "\ud800", "İ", ".", ",", "/",
            " by ", "Over", "divided by", "two", "Hundred", " and ", "third", "th", "ieth", "\n"]
    native = {"en": ["one"], "es": [" y ", "mil", "veintidós"], "hi": ["सौ", "पाँच"], "ru": ["два", "сто"],
              "uk": ["п'ять", "сто"], None: ["once", "сто"]}
    sp = c.space("fragments-3", "all texts of 3 fragments (thorough: 4)")
    d = c.pick(3, 4)

    def run(sp, ch):
        total(sp, "".join(ch[1:]), [ch[0]])

    def opts(p):
        base = frag + native[p[0]]
        return base if len(p) <= 3 else base[::2]
    explore_product(sp, [list(L.LANGS)] + [opts] * d, run, split=2)
    sp = c.space("fragments-no-language", "all texts of 2 fragments (thorough: 3), language not given")
    explore_product(sp, [[None]] + [opts] * c.pick(2, 3), run, split=2)

    chars = odd_chars()
    sp = c.space("odd-characters", "%d unusual characters alone and next to number words, every entry point" % len(chars))
    w = {l: RUN[l][0] for l in L.LANGS}

    def run2(sp, ch):
        x, = ch
        total(sp, x, everyone if (c.thorough or x.isnumeric()) else ["en", "hi", None][:2])
        for s in ("12" + x, x + "0", "1" + x + "2", x + "3" + x, "4 " + x, "12" + x + "/" + x + "5", x + "12 over 5"):
            total(sp, s, everyone if c.thorough or x.isspace() else ["en"])
        for lang in (L.LANGS if c.thorough else ("en", "uk")):
            n = w[lang]
            for s in (n + x, x + n, n + " " + x, x + " " + n, n + x + n, x + x, n[0] + x + n[1:]):
                total(sp, s, [lang], FUNCS if c.thorough or x.isnumeric() or x.isspace() else ("parse", "parse_number"))
            total(sp, x + "/" + n, [lang], ("parse_fraction",))
            total(sp, n + " over " + x, [lang], ("parse_fraction",))
    explore_product(sp, [chars], run2)

    sp = c.space("every-character", "every code point alone")

    def run3(sp, ch):
        b = ch[0]
        for i in range(b, b + 1024):
            x = chr(i)
            sp.traces += 1
            total(sp, x, ["en"] if not c.thorough else ["en", "es", "hi", "uk"], ("parse_number",) if not c.thorough else FUNCS)
    explore_product(sp, [range(0, sys.maxunicode + 1, 1024)], run3)

    sp = c.space("pumped", "long repetitions of one or two fragments")

    def run4(sp, ch):
        lang, a, b, k = ch
        # the longest texts only for repetitions of one fragment and mixtures with a symbol
        if c.thorough or k <= 40 or a == b or not b[0].isalpha():
            total(sp, (a + b) * k, [lang])

    def pump(p):
        return [x + " " for x in RUN[p[0] or "en"][:5] + CONN.get(p[0], [])] + [
            " ", "-", "'", "x", "1", ".", "/", " by ", "\u0301", "foo "]
    explore_product(sp, [everyone if c.thorough else L.LANGS, pump, pump, c.pick([40, 400], [40, 400, 4000])], run4, split=2)

    sp = c.space("vocabulary-mix", "every pair of words of different languages")
    words = {l: RUN[l][:8] + CONN[l] for l in L.LANGS}
    allw = [x for l in L.LANGS for x in words[l]]

    def run5(sp, ch):
        lang, a, b = ch
        total(sp, a + " " + b, [lang])
        total(sp, a + "/" + b, [lang], ("parse_fraction",))
    explore_product(sp, [L.LANGS, allw, allw], run5, split=2)

    # single words and runs of one character of any length
    sp = c.space("long-words", "words, runs and sentences of up to %d characters" % c.pick(5000, 60000))

    def run6(sp, ch):
        lang, x, n = ch
        for s in (x * n, x * n + " " + w[lang], w[lang] + x * n, w[lang] + " " + x * n + " / " + w[lang], (x * n + " ") * 3):
            total(sp, s, [lang])
    explore_product(sp, [L.LANGS, ["a", "\u0301", "\xad", "'", "ʼ", "-", " ", "\n", ".", ",", "/", "щ", "ी", "é", "th", "ieth", "by", "over "],
                         c.pick([999, 1001, 1500, 5000], [500, 999, 1001, 1500, 3000, 5000, 12000, 60000])], run6, split=2)
    c.finish()


if __name__ == "__main__":
    main()
