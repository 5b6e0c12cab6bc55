"""C02: every form of a number word stands for its value, in every context."""
from mc import lang as L
from mc.alpha import RUN, CONN, TEXT
from mc.core import Check, explore_product


def join(words, lang):
    """Token list of the words, separated by single spaces."""
    toks = []
    for w in words:
        if toks:
            toks.append(L.ws_tok())
        toks.append(L.conn_tok(w) if w in L.SKIP[lang] else L.num_tok(w, lang))
    return toks


def main():
    c = Check("C02")
    c.assumptions = ["the forms and values of the number words are the reviewed vocabulary in mc/vocab.json",
                     "how words combine is the reference numeral machine of mc/lang.py"]
    for lang in L.LANGS:  # the reference itself must be unambiguous
        for w, cv in L.VOCAB[lang].items():
            assert L.FOLDED[lang][L.fold(w)] == cv, (lang, w)

    def check(sp, toks, lang, why):
        s = L.text_of(toks)
        sp.traces += 1
        sp.expect("parse", (s, lang), ("ok", L.ref_parse(toks, lang)), why, "form in context")
        sp.expect("parse_number", (s, lang), ("ok", L.ref_parse_number(toks, lang)), why)

    def forms(p):
        return list(L.VOCAB[p[0]])

    sp = c.space("forms-alone", "every form, every entry point, in ordinary text")

    def alone(sp, ch):
        lang, w = ch
        n = L.VOCAB[lang][w][1]
        for fn, want in (("parse_number", n), ("parse_ordinal", n), ("parse", str(n))):
            sp.expect(fn, (w, lang), ("ok", want), "form of %d" % n, "form alone")
        t = TEXT[lang]
        for a, z in (("", "."), ("", ","), ("(", ")"), (t[0] + " ", " " + t[1]), (t[1] + ", ", "!"), ("\n", ";"),
                     (t[0] + ". ", ": " + t[1]), ("¿", "?"), ("7 ", " 8")):
            sp.expect("parse", (a + w + z, lang), ("ok", (a + str(n) + z).strip()), "form of %d in text" % n)
        sp.expect("parse_fraction", (w + " / " + w, lang), ("ok", "%d/%d" % (n, n)), "form of %d in a fraction" % n)
    explore_product(sp, [L.LANGS, forms], alone, split=2)

    k = c.pick(8, 12)
    sp = c.space("forms-in-context", "prefix (<=2 of %d representative words) x form x suffix (<=1)" % k)

    def pre(p):
        r = RUN[p[0]][:k]
        return [()] + [(a,) for a in r] + [(a, b) for a in r for b in r]

    def ctx(sp, ch):
        lang, w, pr = ch
        for suf in [()] + [(x,) for x in RUN[lang][:k]]:
            if len(pr) == 2 and suf and not c.thorough and suf[0] not in RUN[lang][2:5]:
                continue
            check(sp, join(pr + (w,) + suf, lang), lang, "form in the context of other number words")
    explore_product(sp, [L.LANGS, forms, pre], ctx, split=2)

    sp = c.space("form-pairs", "every form followed by every form, also with a connector between")

    def pairs(sp, ch):
        lang, w = ch
        for v in L.VOCAB[lang]:
            check(sp, join((w, v), lang), lang, "two forms in a row")
            for k in CONN[lang]:
                check(sp, join((w, k, v), lang), lang, "two forms with a connector between")
    explore_product(sp, [L.LANGS, forms], pairs, split=2)

    # the same integer spelled with every combination of the forms of its words
    sp = c.space("spelling-substitution", "standard spellings with each word replaced by each form of the same value")

    def same_value(lang, w):
        cv = L.FOLDED[lang][L.fold(w)]
        return [f for f, x in L.VOCAB[lang].items() if x == cv]

    def subst(sp, ch):
        lang, n = ch
        words = L.spell_words(n, lang)
        for i, w in enumerate(words):
            if w in L.SKIP[lang]:
                continue
            for f in same_value(lang, w):
                s = " ".join(words[:i] + [f] + words[i + 1:])
                sp.traces += 1
                sp.expect("parse_number", (s, lang), ("ok", n), "substituting a form of the same value")
    big = [d * 10 ** p + e for p in range(2, 13) for d in (1, 2, 5, 12, 21, 46, 305, 941) for e in (0, 7, 38)]
    ns = lambda p: list(range(0, 1000, c.pick(3, 1))) + [n for n in big if n < 10 ** L.MAX_POWER[p[0]]]
    explore_product(sp, [L.LANGS, ns], subst, split=2)
    c.finish()


if __name__ == "__main__":
    main()
