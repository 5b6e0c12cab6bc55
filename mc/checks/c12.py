"""C12: a fraction is returned iff both sides are numbers."""
import itertools

from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, call, explore_product

SEPS = ["divided by", "over", "by", "/"]


def side_tokens(lang):
    """(text, value or None) pairs for one side, white space free outside."""
    r = RUN[lang]

    def toks(words):
        out = []
        for w in words:
            if out:
                out.append(L.ws_tok())
            out.append(L.conn_tok(w) if w in L.SKIP[lang] else L.num_tok(w, lang) if w in L.VOCAB[lang] else
                       L.ord_tok(w) if lang == "en" and w in L.EN_ORDINALS else L.oth_tok(w))
        return out
    seqs = [[w] for w in r[:8]] + [[]] + [["foo"], ["12"], ["007"], ["0"], ["½"], ["3.5"], ["1", "2"], ["-"]]
    seqs += [[a, b] for a in r[:6] for b in r[:6]]
    seqs += [[r[0], r[3], r[1], r[2]], [r[5], r[3], r[0]], ["foo", r[0]], [r[0], "foo"], [r[0], "."], ["12", r[2]], [r[0], "12"]]
    for k in CONN[lang]:
        seqs += [[k], [k, r[0]], [r[1], k, r[0]], [r[1], k], [r[0], k, r[1]]]
    if lang == "en":
        seqs += [["third"], ["one", "third"], ["twenty", "-", "first"], ["overt"], ["baby"], ["rover"]]
    out = []
    for s in seqs:
        t = toks(s)
        out.append((L.text_of(t), L.ref_parse_number(t, lang)))
    return list(dict.fromkeys(out))


def main():
    c = Check("C12")
    c.assumptions = ["the meaning of a side is the reference parse_number of mc/lang.py",
                     "white space inside 'divided by' is a single space"]

    def variants(sep):
        if sep == "/":
            return [" / ", "/", "/ ", " /", "\n/\t", "  /  "]
        out = [" " + sep + " ", " " + sep.upper() + " ", " " + sep.title() + " ", "  " + sep + "\n", "\u00a0" + sep + " "]
        if " " not in sep:
            out.append(" " + sep[:-1] + sep[-1].upper() + " ")
        return out

    def expected(a, b):
        return ("ok", None if a is None or b is None else "%d/%d" % (a, b))

    sides = {l: side_tokens(l) for l in L.LANGS}
    for lang in L.LANGS:
        n = len(sides[lang])
        sp = c.space("pairs-" + lang, "%d x %d sides x every separator style" % (n, n))

        def run(sp, ch, lang=lang):
            (a, av), (b, bv), sep = ch
            vs = variants(sep)
            if not c.thorough:
                vs = vs[:3] if lang == "en" else vs[:2]
            for v in vs:
                if any(q in (a + v + b).lower().replace(sep, "", 1) for q in SEPS):
                    continue  # another separator inside a side: judged below
                sp.traces += 1
                sp.expect("parse_fraction", (a + v + b, lang), expected(av, bv), "both sides numbers, or None", "fraction")
        explore_product(sp, [sides[lang], sides[lang], SEPS], run, split=1)

    # every separator style with outer white space and case variations of the sides
    sp = c.space("styles", "every separator style x side style")

    def run2(sp, ch):
        lang, x, y, sep = ch
        for v in variants(sep):
            for f in (str, str.upper, str.title):
                for o in ("", " ", "\n"):
                    s = o + f(L.spell(x, lang)) + v + f(L.spell(y, lang)) + o
                    sp.expect("parse_fraction", (s, lang), ("ok", "%d/%d" % (x, y)), "separator style", "style")
    nums = [0, 1, 21, 100, 342, 1001, 1000000]
    explore_product(sp, [L.LANGS, nums, nums, SEPS], run2, split=2)

    # no separator, several separators, separators only
    sp = c.space("repeated-separators", "two separators among three sides; texts without a separator")

    def run3(sp, ch):
        lang, (a, _), s1, (b, _), s2, (d, _) = ch
        text = a + " " + s1 + " " + b + " " + s2 + " " + d
        sp.expect("parse_fraction", (text, lang), ("ok", None), "two separators", "repeated")
    few = lambda p: sides[p[0]][:3] + [("", None), ("12", 12), ("foo", None)]
    explore_product(sp, [L.LANGS, few, SEPS, few, SEPS, few], run3, split=2)
    sp = c.space("no-separator", "texts without a separator")

    def run4(sp, ch):
        lang, (a, _), j, (b, _) = ch
        if not any(q in (a + j + b).lower() for q in SEPS):
            sp.expect("parse_fraction", (a + j + b, lang), ("ok", None), "no separator", "none")
    explore_product(sp, [L.LANGS, lambda p: sides[p[0]], [" ", "|", " divided ", " and ", "\\", "÷", ":", " b y ", "\u2044", " ove r "],
                         lambda p: sides[p[0]][::3]], run4, split=2)

    # sides agree with parse_number itself, whatever it says
    sp = c.space("relation", "parse_fraction against parse_number on spelled-out and malformed sides")

    def run5(sp, ch):
        lang, n, sep = ch
        words = L.spell_words(n, lang)
        other = L.spell((n * 7 + 3) % 1000, lang)
        for i in range(len(words) + 1):
            for a in (" ".join(words[i:]), " ".join(words[:i]), " ".join(words[i:] + words[:i])):
                va, vb = call("parse_number", a, lang), call("parse_number", other, lang)
                sp.calls += 2
                sp.expect("parse_fraction", (a + " " + sep + " " + other, lang), expected(va[1], vb[1]), "parse_number of the sides")
                sp.expect("parse_fraction", (other + " " + sep + " " + a, lang), expected(vb[1], va[1]), "parse_number of the sides")
    ns = list(range(0, 1000, c.pick(37, 3))) + [10 ** p + 5 for p in range(3, 13)]
    explore_product(sp, [L.LANGS, ns, SEPS], run5, split=2)

    sp = c.space("language-detected", "fractions without a language")

    def run6(sp, ch):
        lang, x, y, sep = ch
        a, b = L.spell(x, lang), L.spell(y, lang)
        if L.ref_detect((a + " " + b).replace("-", " ").split()) == lang:
            sp.expect("parse_fraction", (a + " " + sep + " " + b,), ("ok", "%d/%d" % (x, y)), "language detected", "detected")
    explore_product(sp, [L.LANGS, nums, nums, SEPS], run6, split=2)

    # sides in the words of other languages, the language given: numbers only if the given language knows them
    sp = c.space("other-languages", "sides in the words of every language, the language given")

    def words_tokens(words, lang):
        out = []
        for w in words:
            if out:
                out.append(L.ws_tok())
            f = L.fold(w)
            out.append(L.conn_tok(w) if f in L.SKIP[lang] else L.num_tok(w, lang) if f in L.FOLDED[lang] else L.oth_tok(w))
        return out

    def run7(sp, ch):
        lang, l1, l2, sep = ch
        for x in (1, 2, 11, 21, 100, 1000):
            for y in (2, 30, 11, 101):
                a, b = L.spell_words(x, l1), L.spell_words(y, l2)
                av, bv = L.ref_parse_number(words_tokens(a, lang), lang), L.ref_parse_number(words_tokens(b, lang), lang)
                sp.expect("parse_fraction", (" ".join(a) + " " + sep + " " + " ".join(b), lang), expected(av, bv),
                          "sides in other languages", "other languages")
    explore_product(sp, [L.LANGS, L.LANGS, L.LANGS, SEPS], run7, split=2)

    # language not given: detected once, over the whole text
    sp = c.space("detected-mixtures", "sides of <= 3 words of several languages, no language given: detected over the whole text")
    mixed = ["once", "mil", "two", "dos", "cien", "сто", "три", "один", "тисяча", "एक", "сорок"]

    def run8(sp, ch):
        a, b, sep = ch[0], ch[1], ch[2]
        lang = L.ref_detect(list(a) + list(b))
        av = L.ref_parse_number(words_tokens(a, lang), lang)
        bv = L.ref_parse_number(words_tokens(b, lang), lang)
        sp.expect("parse_fraction", (" ".join(a) + " " + sep + " " + " ".join(b),), expected(av, bv), "language of the whole text", "mixture")
    one = [(w,) for w in mixed]
    two = [(v, w) for v in mixed[:8] for w in mixed]
    three = [("one", "hundred", "two"), ("dos", "mil", "once"), ("сто", "сорок", "два"), ("сто", "сорок", "п'ять"), ("two", "two", "once")]
    explore_product(sp, [one + two + three, one + two[::c.pick(5, 1)] + three, SEPS], run8, split=1)

    # long sides
    sp = c.space("long-sides", "the longest spellings on either side, and spoilt ones")

    def run9(sp, ch):
        lang, k, sep = ch
        n = int(("317" * k)[:k])
        s, t = L.spell(n, lang), L.spell(21, lang)
        bad = s + " " + RUN[lang][0] + " " + RUN[lang][0]
        for a, av in ((s, n), (t, 21), (bad, None)):
            for b, bv in ((s, n), (t, 21), (bad, None)):
                sp.expect("parse_fraction", (a + " " + sep + " " + b, lang), expected(av, bv), "long sides", "long sides")
    explore_product(sp, [L.LANGS, lambda p: range(1, L.MAX_POWER[p[0]] + 1), SEPS], run9, split=2)

    # other ways to write the words of a side
    import unicodedata
    sp = c.space("written-variants", "every number word decomposed, with soft hyphens, extra accents or letters whose lower case is longer, on either side")

    def run10(sp, ch):
        lang, w = ch
        n = L.VOCAB[lang][w][1]
        vs = [unicodedata.normalize("NFD", w), unicodedata.normalize("NFD", w.upper()), w[:1] + "\xad" + w[1:], w[:1] + "\u0301" + w[1:]]
        if lang in ("en", "es"):
            vs += [w.replace("i", "\u0130"), w.upper().replace("I", "\u0130"), w.replace("e", "\u00ea").replace("o", "\u1ed9")]
        o = RUN[lang][5]
        on = L.VOCAB[lang][o][1]
        for v in dict.fromkeys(vs):
            if len(w) < 2 or L.fold(v.replace("\xad", "")) != L.fold(w):
                continue
            for sep in (" / ", "/", " over ", " BY ", " Divided By "):
                sp.expect("parse_fraction", (v + sep + o, lang), ("ok", "%d/%d" % (n, on)), "written variants", "variants")
                sp.expect("parse_fraction", (o + sep + v, lang), ("ok", "%d/%d" % (on, n)), "written variants")
                sp.expect("parse_fraction", (v + sep + v, lang), ("ok", "%d/%d" % (n, n)), "written variants")
                sp.expect("parse_fraction", (v + " foo" + sep + v, lang), ("ok", None), "written variants")
    explore_product(sp, [L.LANGS, lambda p: [w for w in L.VOCAB[p[0]]]], run10, split=2)

    # every character next to the separator
    sp = c.space("characters", "every character of the BMP before and after the separator, directly and spaced: the side is no number")

    def run11(sp, ch):
        lang, lo = ch
        a, b = RUN[lang][1], RUN[lang][0]
        for i in range(lo, lo + 64):
            x = chr(i)
            if x.isspace() or x in "'’ʼ\xad" or unicodedata.category(x)[0] == "M" or x.lower() in L.SKIP[lang] or L.is_recognised(x, lang):
                continue
            for sep in ("/", " over ", " by", "divided by ") if i < 0x250 or c.thorough else ("/", " over "):
                for s in (a + sep + x + b, a + x + sep + b, a + " " + x + " " + sep + b, a + sep + " " + x + " " + b, a + sep + b + x, x + a + sep + b):
                    if x.isalnum() and any(L.is_recognised(w, lang) for w in (a + x, x + b, b + x, x + a)):
                        continue
                    sp.expect("parse_fraction", (s, lang), ("ok", None), "a foreign character in a side", "character")
    explore_product(sp, [L.LANGS, lambda p: range(0, 0x10000 if p[0] == "en" or c.thorough else 0x600, 64)], run11, split=2)

    # every case of the separator, every length of the white space around it
    sp = c.space("separator-spelling", "every mixture of upper and lower case of every separator; white space of every length to 70 around it, and long ones")

    def mixtures(sep):
        return ["".join(t) for t in itertools.product(*[dict.fromkeys((x.lower(), x.upper())) for x in sep])]

    def run12(sp, ch):
        lang, sep = ch
        pairs = [(L.spell(x, lang), x, L.spell(y, lang), y) for x, y in ((1, 2), (21, 342), (1001, 7))] + [("12", 12, RUN[lang][0], L.VOCAB[lang][RUN[lang][0]][1])]
        for s in mixtures(sep):
            for a, x, b, y in pairs[:1] if len(s) > 4 and not c.thorough else pairs:
                sp.expect("parse_fraction", (a + " " + s + " " + b, lang), expected(x, y), "case of the separator", "case")
                sp.expect("parse_fraction", (a + " " + s + " foo", lang), expected(x, None), "case of the separator")
        for k in list(range(1, 71)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10000]:
            for g in (" " * k, "\n" * k, (" \t\u3000" * k)[:k]):
                for a, x, b, y in pairs:
                    for t in (a + g + sep + g + b, a + g + sep + " " + b, a + " " + sep + g + b, g + a + " " + sep + " " + b + g):
                        sp.expect("parse_fraction", (t, lang), expected(x, y), "length of the white space", "white space")
                    sp.expect("parse_fraction", (a + g + sep + g, lang), expected(x, None), "nothing after the separator")
                    sp.expect("parse_fraction", (g + sep + g + b, lang), expected(None, y), "nothing before the separator")
    explore_product(sp, [L.LANGS, SEPS], run12, split=2)
    c.finish()


if __name__ == "__main__":
    main()
