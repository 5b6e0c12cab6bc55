"""C03: English ordinals."""
from mc import lang as L
from mc.core import Check, explore_product
from mc.alpha import RUN


def main():
    c = Check("C03")
    c.assumptions = ["the ordinal of a cardinal spelling changes its last word: irregular first, second, third, fifth, "
                     "eighth, ninth, twelfth; -y to -ieth; otherwise + th"]

    def one(sp, n):
        for v in L.VARIANTS["en"]:
            s = " ".join(L.en_ordinal_words(n, v))
            card = L.spell(n, "en", v)
            sp.traces += 2
            sp.expect("parse_ordinal", (s, "en"), ("ok", n), "ordinal of %d" % n, "ordinal of %d" % n)
            sp.expect("parse_ordinal", (s,), ("ok", n), "ordinal of %d, language detected" % n)
            sp.expect("parse_ordinal", (card, "en"), ("ok", n), "cardinal of %d" % n)
            sp.expect("parse", (s, "en"), ("ok", str(n)), "ordinal of %d in text" % n)

    top = c.pick(10000, 200000)
    sp = c.space("all-small", "every 1 <= n < %d, every connector variant" % top)
    explore_product(sp, [range(0, top, 100), lambda p: [n for n in range(p[0], p[0] + 100) if n]],
                    lambda sp, ch: one(sp, ch[1]))

    sp = c.space("scales", "up to 4 non-zero groups over all scales")
    vals = [1, 2, 12, 30, 45, 100, 108, 340, 999]

    def run(sp, ch):
        p0, v0 = ch

        def rec(n, below, left):
            sp.extra_states += 1
            sp.transitions += 1
            one(sp, n)
            if left:
                for p in range(0, below, 3):
                    for v in vals[:c.pick(9, 9) if left > 1 else 5]:
                        rec(n + v * 10 ** p, p, left - 1)
        rec(v0 * 10 ** p0, p0, c.pick(1, 3))
    explore_product(sp, [range(0, 24, 3), range(1, 1000) if c.thorough else vals], run, split=2)

    # what comes before and after an ordinal in running text
    ords = [L.en_ordinal(w) for w in L.VOCAB["en"]]
    sp = c.space("ordinals-in-context", "prefix (<=2 words) x every ordinal x followers (<=2 tokens)")
    k = c.pick(8, 12)
    lead = [()] + [(a,) for a in L.VOCAB["en"]] + [(a, b) for a in RUN["en"][:k] for b in RUN["en"][:k]] + [
        ("Café",), ("and",), ("twenty", "and"), ("twenty", "-"), ("first",), ("tenth",)]
    follow = [()] + [(w,) for w in list(L.VOCAB["en"]) + ords[::3] + ["and", "-", "place", ".", ",", "'s"]] + [
        (a, b) for a in ("and", "-", "of", ".", "second", "one", "thousandth") for b in ("two", "third", "hundred", "and", "Floor")]

    def tok(w):
        if w in L.VOCAB["en"]:
            return L.num_tok(w, "en")
        if w in L.EN_ORDINALS:
            return L.ord_tok(w)
        if w in L.SKIP["en"]:
            return L.conn_tok(w)
        return (L.sep_tok if w in ".," else L.oth_tok)(w)

    def ctx(sp, ch):
        pre, o = ch
        for fol in follow:
            toks = []
            for w in pre + (o,) + fol:
                if toks and w not in (".", ",", "'s"):
                    toks.append(L.ws_tok())
                toks.append(tok(w))
            s = L.text_of(toks)
            sp.traces += 1
            sp.expect("parse", (s, "en"), ("ok", L.ref_parse(toks, "en")), "ordinal in running text", "ordinal in context")
    explore_product(sp, [lead, ords], ctx, split=2)

    # case and spelling variants of single ordinals
    sp = c.space("ordinal-words", "every ordinal word, letter case variants, punctuation around it")

    def word(sp, ch):
        w, o = ch
        n = L.VOCAB["en"][w][1]
        for s in (o, o.upper(), o.title(), o[0] + o[1:].upper(), " " + o + "\n", o[:2] + "\xad" + o[2:]):
            sp.expect("parse_ordinal", (s, "en"), ("ok", n), "ordinal word")
            if s == s.strip():
                sp.expect("parse", ("the " + s + " one", "en"), ("ok", "the %d 1" % n), "ordinal word in text")
    explore_product(sp, [list(L.VOCAB["en"]), lambda p: [L.en_ordinal(p[0])]], word)

    # long ordinals in text: the ordinal closes its number however many words it has
    sp = c.space("long-ordinals", "long and round cardinals of 1..24 digits as ordinals, then number words, connectors, ordinals")
    pats = ["317", "1", "9", "1001", "20", "500000", "123456", "40", "100", "300", "13", "60"]
    after = [("two",), ("hundred",), ("thousand",), ("twenty",), ("third",), ("and", "two"), ("-", "five"), ("million",), ("and", "third"),
             ("Floor",), (".", "two"), ("two", "hundred", "third"), (",", "four", "hundredth", "five")]

    def longer(sp, ch):
        k, pat, v = ch
        n = int((pat * k)[:k])
        ow = [x for part in L.en_ordinal_words(n, v) for x in part.replace("-", " - ").split()]
        for pre in ((), ("two", "hundred"), ("Café",), ("third",), ("six", "and")):
            for fol in after:
                toks = []
                for w in pre + tuple(ow) + fol:
                    if toks and w not in (".", ","):
                        toks.append(L.ws_tok())
                    toks.append(tok(w))
                sp.traces += 1
                sp.expect("parse", (L.text_of(toks), "en"), ("ok", L.ref_parse(toks, "en")), "long ordinal in text", "long ordinal")
    explore_product(sp, [range(1, 25), pats, L.VARIANTS["en"]], longer, split=2)
    c.finish()


if __name__ == "__main__":
    main()
