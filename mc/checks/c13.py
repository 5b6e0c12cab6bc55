"""C13: digits pass through unchanged; parse is idempotent with a given language."""
import sys
import unicodedata

from mc import lang as L
from mc.alpha import RUN, CONN, TEXT
from mc.core import Check, call, explore_product, explore_tree


def scripts():
    """Lists of the ten decimal digits of every script."""
    out = []
    for i in range(sys.maxunicode + 1):
        if unicodedata.category(chr(i)) == "Nd" and unicodedata.decimal(chr(i)) == 0:
            out.append([chr(i + k) for k in range(10)])
    return out


def main():
    c = Check("C13")
    c.assumptions = ["digit strings up to Python's own integer conversion limit (4300 digits)"]
    langs = list(L.LANGS)

    def number(sp, s, n, ls=langs + [None]):
        for lang in ls:
            args = (s,) if lang is None else (s, lang)
            sp.expect("parse_number", args, ("ok", n), "digits", "digits")

    top = c.pick(4, 5)
    sp = c.space("digit-strings", "every digit string of <= %d digits, 5 languages and none" % top)

    def run(sp, ch):
        k, head = ch
        for i in range(10 ** (k - 1)):
            s = head + (str(i).zfill(k - 1) if k > 1 else "")
            sp.traces += 1
            number(sp, s, int(s))
            sp.expect("parse", (s, langs[i % 5]), ("ok", s), "digits stay")
            if i % 7 == 0 or k < 4:
                for a, b in ((" ", ""), ("", "\n"), ("\t ", " \u00a0")):
                    number(sp, a + s + b, int(s), ["en", langs[i % 5], None])
    explore_product(sp, [range(1, top + 1), "0123456789"], run, split=2)

    sp = c.space("scripts", "digit strings of <= 3 digits in every script's digits")
    sc = scripts()

    def run2(sp, ch):
        i, = ch
        d = sc[i]
        for a in range(10):
            number(sp, d[a], a)
            for b in range(10):
                number(sp, d[a] + d[b], 10 * a + b, ["en", langs[(a + b) % 5]])
                sp.expect("parse", (d[a] + d[b], langs[b % 5]), ("ok", d[a] + d[b]), "digits stay")
                if c.thorough:
                    for e in range(10):
                        number(sp, d[a] + d[b] + d[e], 100 * a + 10 * b + e, ["hi", None])
        number(sp, " " + d[4] + d[2] + " ", 42)
        number(sp, "".join(d), 123456789)
    explore_product(sp, [range(len(sc))], run2)
    sp = c.space("mixed-scripts", "digits of two scripts in one string")
    step = c.pick(5, 1)
    explore_product(sp, [range(0, len(sc), step), range(0, len(sc), step)],
                    lambda sp, ch: number(sp, sc[ch[0]][3] + sc[ch[1]][0] + sc[ch[0]][7], 307, ["en"]), split=1)

    sp = c.space("long-digit-strings", "lengths up to 4300")

    def run3(sp, ch):
        k, = ch
        for s in ("9" * k, "1" + "0" * (k - 1), "0" * k, ("1234567890" * 430)[:k]):
            number(sp, s, int(s), ["en", "uk"])
            sp.expect("parse", (s, "en"), ("ok", s), "digits stay")
    explore_product(sp, [list(range(1, 80)) + [100, 255, 256, 1000, 1023, 1024, 4299, 4300]], run3)

    # digit tokens among words and numbers
    items = ["7", "42", "007", "3.14", "1,000", "1,000.50", "12:30", "2020-06-25", "25/06/2020", "1.", "50%", "$5", "+1", "-3",
             "1e5", "4th", "21st", "10x", "x10", "1_000", "١٢", "१२", "½", "10²", "#1", "(8)", "000", "12 000", "1 000 000", "00", "0,5", "1.000.000", "12:30:45", "1/2", "10 20 30 40", "2.", ",5", "0x1F", "1-800-555", "٣٫٥", "४५", "1-2", "v1.2.3", "12h", "0"]
    sp = c.space("digits-in-text", "every digit token between words, numbers and other digit tokens")

    def run4(sp, ch):
        lang, a, x, b, y = ch
        r = RUN[lang][0]
        n = str(L.VOCAB[lang][r][1])
        word = TEXT[lang][0]
        parts = {"w": (word, word), "n": (r, n), "": ("", "")}
        text = " ".join(t for t in (parts[a][0], x, parts[b][0], y) if t)
        res = " ".join(t for t in (parts[a][1], x, parts[b][1], y) if t)
        sp.expect("parse", (text, lang), ("ok", res), "digits in text stay", "digit token")
        if "$" not in text:
            sp.expect("parse", ("(" + text + ")", lang), ("ok", "(" + res + ")"), "digits in text stay")
    explore_product(sp, [langs, ["", "w", "n"], items, ["", "w", "n"], [""] + (items if c.thorough else items[:12] + items[-17:-1:2])], run4, split=2)

    # idempotence: all texts of a few tokens
    toks = {
        "en": ["two", "Hundred", "third", "and", "-", "twenty", "Café", "12", "thousand"],
        "es": ["dos", "cien", "y", "treinta", "Años", "12", "mil", "MILLÓN"],
        "hi": ["दो", "सौ", "पाँच", "लोग", "१२", "हज़ार"],
        "ru": ["два", "сто", "двадцать", "Ещё", "12", "тысяча"],
        "uk": ["два", "сто", "пʼять", "Об'єкт", "12", "тисяча"]}
    glue = [" ", ", ", ".", "  ", "-", "\n", " ! "]
    for lang in langs:
        for nt, ng, k in c.pick([(6, 3, 4), (8, 7, 3)], [(6, 4, 5), (8, 6, 4)]):
            sp = c.space("idempotence-%s-%d" % (lang, k),
                         "texts of <= %d of %d tokens and %d kinds of glue: parse(parse(s)) == parse(s)" % (k, nt, ng))

            def succ(st, lang=lang, nt=nt, ng=ng):
                if st and st[-1] in toks[lang]:
                    return [(g, st + (g,)) for g in glue[:ng]]
                return [(t, st + (t,)) for t in toks[lang][:nt]]

            def check(sp, labels, st, lang=lang):
                s = "".join(st)
                if not s:
                    return
                sp.traces += 1
                o = call("parse", s, lang)
                sp.calls += 1
                if o[0] != "ok":
                    return sp.violation("parse", (s, lang), ("ok", "a string"), o, "idempotence")
                sp.expect("parse", (o[1], lang), o, "parse of parse(%r)" % s, "idempotence")
            explore_tree(sp, (), succ, check, 2 * k - 1)

    # long outputs: idempotence on repeated patterns
    from mc import pump
    sp = c.space("idempotence-long", "patterns repeated 1..%d times: parse(parse(s)) == parse(s)" % c.pick(24, 80))

    def run9(sp, ch):
        lang, unit, n = ch
        for words in pump.patterns(lang, n, unit, [(RUN[lang][0],), (RUN[lang][3], "12")]):
            s = L.text_of(pump.toks(words, lang))
            o = call("parse", s, lang)
            sp.calls += 1
            if o[0] != "ok":
                return sp.violation("parse", (s, lang), ("ok", "a string"), o, "idempotence")
            sp.expect("parse", (o[1], lang), o, "parse of parse(%r)" % s[:200], "idempotence")
    explore_product(sp, [langs, lambda p: pump.text_units(p[0]) + pump.number_units(p[0]), pump.lengths(c.pick(24, 80), (100, 300))], run9, split=2)

    # digits and punctuation only: dates, times, prices, tables
    sp = c.space("digit-texts", "%d groups of digits joined by every glue: nothing changes" % c.pick(4, 5))
    groups = ["7", "12", "2020", "05", "000"]
    marks = [" ", "/", "/ ", " / ", ".", ". ", ",", ", ", ":", "-", " - ", "  ", "\n", "x", "% ", "°", "'", "\u2009", "\u00a0"]

    def run10(sp, ch):
        s = "".join(ch)
        for lang in (langs if len(ch) <= 5 else (langs[h(s) % 5],)):
            sp.expect("parse", (s, lang), ("ok", s), "digits and punctuation stay", "digit text")
    h = lambda s: sum(map(ord, s))
    explore_product(sp, [groups, marks, groups, marks, groups], run10, split=2)
    sp2 = c.space("digit-texts-long", "four groups of digits, three glues")
    explore_product(sp2, [groups[:c.pick(3, 5)], marks, groups[:c.pick(2, 4)], marks, groups[1:c.pick(3, 5)], marks, groups[:c.pick(3, 5)]], run10, split=2)

    # every white-space character around digits
    spaces = [chr(i) for i in range(sys.maxunicode + 1) if chr(i).isspace()]
    sp = c.space("outer-white-space", "every pair of white-space characters around digits (ASCII and others)")

    def run11(sp, ch):
        a, b = ch
        for s, n in (("12", 12), ("0", 0), ("007", 7), ("१२", 12), ("1٢", 12)):
            for t in (a + s + b, a + b + s, s + a + b, a + s, s + b):
                number(sp, t, n, langs + [None] if s == "12" else ["en", "hi"])
                if s == "12":
                    sp.expect("parse_ordinal", (t, "en"), ("ok", n), "digits")
    explore_product(sp, [spaces, spaces], run11)

    # digits and ordinary words
    from mc.words import WORDS as NEAR
    sp = c.space("digits-near-words", "every ordinary word before, after and between digits: nothing changes")

    def run12(sp, ch):
        lang, w = ch
        for d in ("5", "12", "2020", "3.5", "1,000"):
            for s in (d + " " + w, w + " " + d, d + " " + w + " " + d, w + " " + d + " " + w, d + w, w + d, d + "-" + w, w.title() + " " + d + ".", w + ", " + d):
                sp.expect("parse", (s, lang), ("ok", s), "digits and ordinary words stay", "digits near words")
    explore_product(sp, [langs, lambda p: NEAR[p[0]]], run12, split=2)

    # lengths of white space around digits, and of leading zeros
    sp = c.space("lengths", "white space of every length to 70 around digits, and leading zeros of every length to 300, and long ones")

    def run13(sp, ch):
        k, = ch
        for x in (" ", "\n", "\t ", "\u3000"):
            g = (x * k)[:k]
            for s, n in (("12", 12), ("0", 0), ("007", 7), ("१२", 12), ("4" * 40, int("4" * 40))):
                for t in (g + s + g, g + s, s + g):
                    number(sp, t, n)
                    sp.expect("parse_ordinal", (t, "en"), ("ok", n), "digits")
        for z in "0०٠":
            for s, n in (("7", 7), ("12", 12), ("", 0)):
                t = z * min(k, 4290) + s
                number(sp, t, n)
                sp.expect("parse", ("x " + t + ", z", langs[k % 5]), ("ok", "x " + t + ", z"), "leading zeros stay")
    explore_product(sp, [list(range(1, c.pick(71, 301))) + list(range(80, 300, 10)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10000]], run13)
    c.finish()


if __name__ == "__main__":
    main()
