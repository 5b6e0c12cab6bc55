"""C10: the language is the one with the most recognised words."""
from mc import lang as L
from mc.alpha import RUN
from mc.core import Check, FUNCS, call, explore_product

WORDS = ["two", "once", "cien", "एक", "сто", "тисяча", "and", "y", "third", "foo", "три", "dos", "девʼять", "हज़ार"]
MORE = ["twenty", "hundredth", "mil", "-", "сорок", "тысяча", "12", "Люди", "सौ", "Veintidós", "AND", "один", "чотири"]


def words_of(text):
    """Whole words of a text made from WORDS (tokens the detector may count)."""
    return text.replace("-", " - ").replace(",", " ").replace(".", " ").replace("/", " ").split()


def main():
    c = Check("C10")
    c.assumptions = ["what is recognised is the reviewed vocabulary, connectors, and (English) ordinals",
                     "the call with the language given is judged by the other properties"]

    def relate(sp, s, fns=FUNCS, words=None):
        lang = L.ref_detect(words if words is not None else words_of(s))
        for fn in fns:
            want = call(fn, s, lang)
            sp.calls += 1
            sp.traces += 1
            sp.expect(fn, (s,), want, "as if called with language %r" % lang, "detected " + lang)
            sp.expect(fn, (s, None), want, "as if called with language %r" % lang)

    sp = c.space("mixtures-all-functions", "all texts of <= %d words, every entry point" % c.pick(2, 3))

    def run(sp, ch, fns=FUNCS):
        s = " ".join(w for w in ch if w)
        if s:
            relate(sp, s, fns)
    allw = WORDS + MORE
    explore_product(sp, [[""] + allw] * c.pick(2, 3), run, split=2)

    sp = c.space("mixtures-3", "all texts of 3 words, every entry point")
    explore_product(sp, [WORDS[:c.pick(10, 14)]] * 3, run, split=2)

    sp = c.space("mixtures-4", "all texts of 4 words, parse")
    explore_product(sp, [WORDS[:c.pick(11, 14)]] * 4, lambda sp, ch: relate(sp, " ".join(ch), ("parse",)), split=2)

    sp = c.space("fractions", "all fractions of one or two words a side")
    explore_product(sp, [WORDS, [""] + WORDS[:6], [" / ", " over "], WORDS],
                    lambda sp, ch: relate(sp, " ".join(x for x in ch[:2] if x) + ch[2] + ch[3], ("parse_fraction",),
                                          [x for x in (ch[0], ch[1], ch[3]) if x]), split=2)

    # counts: a copies of one language's word, b of another's, c of a third's, in every order of the blocks
    sp = c.space("counts", "0..4 words of each of three languages, every pair/triple of languages, blocks in two orders")
    own = {"en": ["two", "twenty", "million", "third"], "es": ["dos", "veinte", "cien", "uno"], "hi": ["एक", "सौ", "लाख", "दो"],
           "ru": ["тысяча", "восемь", "четыре", "двадцати"], "uk": ["тисяча", "мільйон", "чотири", "шість"]}
    for l in L.LANGS:
        for w in own[l]:
            assert [m for m in L.LANGS if L.is_recognised(w, m)] == [l], w

    def run2(sp, ch):
        l1, l2, a, b, filler = ch
        if l1 == l2:
            return
        for l3 in L.LANGS:
            if l3 in (l1, l2):
                continue
            for k in ((0, 1) if not c.thorough else (0, 1, 2, 3)):
                ws = [own[l1][i % 4] for i in range(a)] + [own[l2][i % 4] for i in range(b)] + own[l3][:k] + ["foo"] * filler
                if ws:
                    relate(sp, " ".join(ws), ("parse",), ws)
                    relate(sp, ", ".join(reversed(ws)), ("parse",), ws)
                if l3 != [m for m in L.LANGS if m not in (l1, l2)][0] and k == 0:
                    break
    explore_product(sp, [L.LANGS, L.LANGS, range(c.pick(4, 5)), range(c.pick(4, 5)), c.pick([0, 3], [0, 1, 5])], run2, split=3)

    # every single word of every vocabulary decides (or not)
    sp = c.space("single-words", "every vocabulary form and connector alone, and against one word of every other language")

    def run3(sp, ch):
        lang, w = ch
        relate(sp, w, FUNCS, [w])
        relate(sp, w.upper(), ("parse",), [w])
        for m in L.LANGS:
            relate(sp, own[m][0] + " " + w, ("parse",), [own[m][0], w])
            relate(sp, w + ". " + own[m][1], ("parse",), [own[m][1], w])
    explore_product(sp, [L.LANGS, lambda p: list(L.VOCAB[p[0]]) + L.SKIP[p[0]] + (list(L.EN_ORDINALS) if p[0] == "en" else [])],
                    run3, split=2)

    sp = c.space("nothing-recognised", "texts without any recognised word are read as English")
    junk = ["", " ", "foo", "12", "!", "łódź", "日本", "½", "'", "\n", "someone", "trzy", "zwei"]

    def run4(sp, ch):
        s = "".join(ch)
        relate(sp, s, FUNCS, [])
    explore_product(sp, [junk] * c.pick(2, 3), run4, split=2)

    # absolute results: spelled-out numbers of each language
    sp = c.space("spelled-numbers", "standard spellings without a language")

    def run5(sp, ch):
        lang, n = ch
        s = L.spell(n, lang)
        if L.ref_detect(s.replace("-", " ").split()) == lang:
            for fn in ("parse_number", "parse_ordinal"):
                sp.expect(fn, (s,), ("ok", n), "spelled number, language detected", "spelled")
            sp.expect("parse", (s,), ("ok", str(n)), "spelled number, language detected")
    ns = list(range(0, 130)) + [10 ** p * a + b for p in range(3, 13) for a in (1, 3) for b in (0, 22)]
    explore_product(sp, [L.LANGS, lambda p: [n for n in ns if n < 10 ** L.MAX_POWER[p[0]]]], run5, split=2)

    # long texts: fillers of every length before, between and after the words that decide
    sp = c.space("long-fillers", "texts of up to %d filler words around the deciding words" % c.pick(600, 5000))

    def run6(sp, ch):
        l1, l2, n = ch
        if l1 == l2:
            return
        a, b = own[l1][0], own[l2][0]
        for filler in (["foo"], ["12", ","], ["\n"], ["łódź", "-"][:1]):
            f = filler * n
            for ws in ([a] + f + [b, b], [b] + f + [a, a], f + [a], [a, b] + f + [b], f + [b, a] + f + [b]):
                relate(sp, " ".join(ws), ("parse",), ws)
    explore_product(sp, [L.LANGS, L.LANGS, c.pick([1, 5, 10, 20, 33, 65, 129, 257, 600],
                                                  list(range(1, 140)) + [200, 257, 513, 1025, 2000, 5000])], run6, split=2)
    sp = c.space("long-characters", "long runs of characters around the deciding words")

    def run7(sp, ch):
        x, n = ch
        for l1 in L.LANGS:
            for l2 in L.LANGS:
                if l1 != l2:
                    f = x * n
                    ws = [own[l1][0], f, own[l2][0], own[l2][1]]
                    relate(sp, " ".join(ws), ("parse",), ws)
                    ws = [own[l1][0], own[l1][1], f, own[l2][0]]
                    relate(sp, " ".join(ws), ("parse",), ws)
    explore_product(sp, [["x", " ", "!", "7", ". ", "щ", "ा"], c.pick([1, 64, 256, 1000], list(range(1, 300, 3)) + [1000, 5000, 20000])], run7)

    # large counts, close to each other
    sp = c.space("large-counts", "a words of one language, a-1..a+1 of another, a <= %d, blocks and alternation" % c.pick(24, 100))

    def run8(sp, ch):
        l1, l2, a = ch
        if l1 == l2:
            return
        for b in (a - 1, a, a + 1):
            x = [own[l1][i % 4] for i in range(a)]
            y = [own[l2][i % 4] for i in range(b)]
            mix = [w for p in zip(x, y) for w in p] + x[min(a, b):] + y[min(a, b):]
            for ws in (x + y, mix, x[:a // 2] + y + x[a // 2:]):
                relate(sp, " ".join(ws), ("parse",), ws)
            relate(sp, " ".join(x[:1] * a + y[:1] * b), ("parse", "parse_number"), x[:1] * a + y[:1] * b)
    explore_product(sp, [L.LANGS, L.LANGS, c.pick(list(range(1, 25)) + [33, 65, 130], list(range(1, 101)) + [130, 257, 600])], run8, split=2)

    # every form in every case and in a text with its neighbours
    sp = c.space("forms-decide", "every vocabulary form counts once: form + rival words of every other language, glued by punctuation and case variants")

    def run9(sp, ch):
        lang, w = ch
        for m in L.LANGS:
            if m == lang:
                continue
            for v in (w, w.upper(), w.title())[:c.pick(2, 3)]:
                if v.lower() != w.lower():
                    continue
                relate(sp, "(" + v + ")! " + own[m][0], ("parse",), [w, own[m][0]])
                if v == w:
                    relate(sp, own[m][0] + "; " + v + " \n" + w, ("parse",), [own[m][0], w, w])
                relate(sp, own[m][1] + " " + v + ": " + own[m][0] + " " + w, ("parse",), [own[m][0], own[m][1], w, w])
    explore_product(sp, [L.LANGS, lambda p: list(L.VOCAB[p[0]]) + [k for k in L.SKIP[p[0]] if k != "-"] + (list(L.EN_ORDINALS) if p[0] == "en" else [])],
                    run9, split=2)

    # the same words written in other ways decide just the same
    import unicodedata
    sp = c.space("variants-decide", "every vocabulary form with soft hyphens, without accents, decomposed, capitalised, against rival words")

    def run10(sp, ch):
        lang, w = ch
        vs = [w[:1] + "\xad" + w[1:], w[:-1] + "\xad" + w[-1:], L.fold(w) if "'" not in w and "’" not in w else w, unicodedata.normalize("NFD", w),
              w.title(), w[0] + w[1:].upper()]
        i = next((i for i, x in enumerate(w) if x in "aeiouаеєиіїоуыэюяё"), None)
        if i is not None:  # a stress mark on the first vowel
            vs.append(w[:i + 1] + "\u0301" + w[i + 1:])
        for v in dict.fromkeys(vs):
            if v == w or v.lower().replace("\xad", "") != w.lower() and L.fold(v.replace("\xad", "")) != L.fold(w):
                continue
            for m in L.LANGS:
                if m != lang:
                    relate(sp, own[m][0] + " " + v + " " + v, ("parse",), [own[m][0], w, w])
                    relate(sp, v + " foo " + own[m][1], ("parse",), [w, own[m][1]])
            relate(sp, v, FUNCS, [w])
    explore_product(sp, [L.LANGS, lambda p: [w for w in list(L.VOCAB[p[0]]) + (list(L.EN_ORDINALS) if p[0] == "en" else []) if len(w) > 1]],
                    run10, split=2)

    # ordinary words of one language count for none
    from mc.words import WORDS as NEAR
    sp = c.space("ordinary-words", "every ordinary word of every language next to number words of another language")

    def run11(sp, ch):
        lang, w = ch
        if any(L.is_recognised(w, m) for m in L.LANGS) or "'" in w:
            return
        for m in L.LANGS:
            if m != lang:
                a, b = own[m][0], own[lang][1]
                relate(sp, " ".join([w, w, w, a]), ("parse",), [a])
                relate(sp, " ".join([a, w, b, w]), ("parse",), [a, b])
        relate(sp, w, FUNCS, [])
    explore_product(sp, [L.LANGS, lambda p: NEAR[p[0]]], run11, split=2)
    c.finish()


if __name__ == "__main__":
    main()
