"""C20: the entry points agree with each other (relations between calls, no reference machine)."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, call, explore_product


def main():
    c = Check("C20")
    c.assumptions = ["relations between calls of the same library; whether the common answer is right is C01-C07's business"]

    def ordinal_free(s, lang):
        return lang != "en" or not any(w in L.EN_ORDINALS for w in s.replace("-", " ").split())

    def relate(sp, words, lang):
        s = " ".join(words)
        sp.traces += 1
        n = call("parse_number", s, lang)
        p = call("parse", s, lang)
        o = call("parse_ordinal", s, lang)
        sp.calls += 3
        sp.outcomes.add(hash((n, p)))
        tail = []
        for w in reversed(words):
            if w not in L.SKIP[lang]:
                break
            tail.insert(0, w)
        # parse's answer is one number iff it is digits followed by the trailing connectors
        first = p[1].split(" ")[0] if p[0] == "ok" and isinstance(p[1], str) else ""
        single = p[0] == "ok" and first.isdecimal() and p[1] == " ".join([first] + tail)
        if n[0] != "ok" or p[0] != "ok" or o[0] != "ok":
            return sp.violation("parse_number", (s, lang), ("ok", "a result"), n, "parse %r, parse_ordinal %r" % (p, o))
        if single:
            if n[1] is None or str(n[1]) != first:
                sp.violation("parse_number", (s, lang), ("ok", int(first)), n, "parse gives %r" % p[1])
        elif n[1] is not None:
            sp.violation("parse_number", (s, lang), ("ok", None), n, "parse gives %r" % p[1])
        if ordinal_free(s, lang) and (o[1] != n[1] or type(o[1]) is not type(n[1])):
            sp.violation("parse_ordinal", (s, lang), n, o, "parse_number's answer")
        if len(sp.samples) < 3:
            sp.samples.append({"text": s, "lang": lang, "parse_number": str(n[1]), "parse": p[1], "parse_ordinal": str(o[1])})
        if lang == "en" and words[-1] in L.VOCAB["en"] and ordinal_free(s, lang):
            t = " ".join(words[:-1] + (L.en_ordinal(words[-1]),))
            sp.expect("parse", (t, lang), p, "parse of the text with its last word as a cardinal")
            sp.expect("parse_ordinal", (t, lang), n, "parse_number of the text with its last word as a cardinal")

    for lang in L.LANGS:
        words = RUN[lang] + CONN[lang]
        k, d = len(words), c.pick(4, 5)
        sp = c.space("runs-" + lang, "all runs of <= %d of %d words beginning with a number word" % (d, k))
        dims = [range(1, d + 1), lambda p, w=RUN[lang]: w] + [lambda p, w=words: w if len(p) <= p[0] else [None]] * (d - 1)
        explore_product(sp, dims, lambda sp, ch, lang=lang: relate(sp, tuple(w for w in ch[1:] if w), lang), split=3)

        words = RUN[lang][:5] + CONN[lang][:1]
        d = c.pick(5, 7)
        sp = c.space("deep-" + lang, "all runs of <= %d of %d words" % (d, len(words)))
        dims = [range(1, d + 1), lambda p, w=RUN[lang][:5]: w] + [lambda p, w=words: w if len(p) <= p[0] else [None]] * (d - 1)
        explore_product(sp, dims, lambda sp, ch, lang=lang: relate(sp, tuple(w for w in ch[1:] if w), lang), split=3)

    sp = c.space("forms", "every vocabulary form alone, after and before representative words")

    def run(sp, ch):
        lang, w = ch
        relate(sp, (w,), lang)
        for r in RUN[lang]:
            relate(sp, (r, w), lang)
            relate(sp, (w, r), lang)
            for k in CONN[lang]:
                relate(sp, (w, k, r), lang)
                relate(sp, (r, k, w, k), lang)
    explore_product(sp, [L.LANGS, lambda p: list(L.VOCAB[p[0]])], run, split=2)

    sp = c.space("spellings", "standard spellings of integers")

    def run2(sp, ch):
        lang, n = ch
        for v in L.VARIANTS[lang]:
            relate(sp, tuple(L.spell(n, lang, v).replace("-", " - ").split()), lang)
    nums = list(range(0, 1000, c.pick(7, 1))) + [a * 10 ** p + b for p in range(3, 24) for a in (1, 2, 17, 305) for b in (0, 6, 900)]
    explore_product(sp, [L.LANGS, lambda p: [n for n in nums if n < 10 ** L.MAX_POWER[p[0]]]], run2, split=2)

    from mc import pump
    sp = c.space("long-runs", "patterns of number words repeated 1..%d times" % c.pick(40, 130))

    def run3(sp, ch):
        lang, unit, n = ch
        r = RUN[lang]
        for words in pump.patterns(lang, n, unit, [(r[0],), (r[4],)] + [(k,) for k in CONN[lang][:1]]):
            if words[0] not in L.SKIP[lang]:
                relate(sp, tuple(words), lang)
    explore_product(sp, [L.LANGS, lambda p: pump.number_units(p[0]), pump.lengths(c.pick(40, 130), (64, 100, 300))], run3, split=2)

    sp = c.space("long-spellings", "every number of digits x digit patterns")

    def run4(sp, ch):
        lang, k, pat = ch
        s = (pat * k)[:k]
        for v in L.VARIANTS[lang]:
            relate(sp, tuple(L.spell(int(s), lang, v).replace("-", " - ").split()), lang)
    explore_product(sp, [L.LANGS, lambda p: range(1, L.MAX_POWER[p[0]] + 1), ["317", "1", "9", "1001", "20", "500000", "123456"]], run4, split=2)

    # ordinary words, words of other languages and punctuation: parse_ordinal is parse_number, and no number comes of them
    sp = c.space("any-words", "all texts of <= 3 of the words of every language, other words, symbols and digits, each language given")
    mixed = ["once", "mil", "two", "and", "y", "-", "foo", "12", "!", ".", "сто", "два", "тисяча", "одинадцять", "एक", "100", "Año", "/"]

    def run5(sp, ch):
        lang = ch[0]
        words = [w for w in ch[1:] if w]
        for j in (" ", ""):
            if j == "" and any(a[-1].isalnum() and b[0].isalnum() for a, b in zip(words, words[1:])):
                continue
            s = j.join(words)
            n, o = call("parse_number", s, lang), call("parse_ordinal", s, lang)
            sp.calls += 2
            sp.traces += 1
            sp.outcomes.add(hash((n, o)))
            if o[0] != "ok" or o[1] != n[1] or type(o[1]) is not type(n[1]):
                sp.violation("parse_ordinal", (s, lang), n, o, "parse_number's answer")
    explore_product(sp, [L.LANGS] + [[""] + mixed] * c.pick(3, 4), run5, split=2)
    sp = c.space("forms-elsewhere", "every vocabulary form with every other language given")

    def run6(sp, ch):
        lang, m, f = ch
        for s in (f, f + " " + f, RUN[lang][0] + " " + f, f + " " + RUN[lang][0], RUN[m][2] + " " + f):
            n, o = call("parse_number", s, lang), call("parse_ordinal", s, lang)
            sp.calls += 2
            if o[0] != "ok" or o[1] != n[1] or type(o[1]) is not type(n[1]):
                sp.violation("parse_ordinal", (s, lang), n, o, "parse_number's answer")
    explore_product(sp, [L.LANGS, L.LANGS, lambda p: [w for w in L.VOCAB[p[1]] if p[0] == "uk" or not any(a in w for a in "'’ʼ")]],
                    run6, split=2)

    # long texts that are almost one number
    sp = c.space("long-mixtures", "long spellings and runs with one or two connectors, symbols, digits or other words before, inside, after: parse_ordinal is parse_number")

    def run8(sp, ch):
        lang, base, x = ch
        words = base.replace("-", " - ").split() if lang == "en" else base.split()
        k = len(words)
        texts = [words, words + words] + [words[:i] + [x] + words[i:] for i in range(k + 1)]
        texts += [[x] + words[:i] + [y] + words[i:] for y in (x, "-", "12") for i in (range(k + 1) if c.thorough else sorted({0, 1, k // 2, k - 1, k}))]
        texts += [[x] * n + words for n in (2, 3, 8, c.pick(20, 40))] + [words + [x] * n for n in (2, 3, 8, c.pick(20, 40))]
        for t in texts:
            for s in (" ".join(t), "  ".join(t)) if len(t) < 12 else (" ".join(t),):
                n, o = call("parse_number", s, lang), call("parse_ordinal", s, lang)
                sp.calls += 2
                sp.traces += 1
                if o[0] != "ok" or o[1] != n[1] or type(o[1]) is not type(n[1]):
                    sp.violation("parse_ordinal", (s, lang), n, o, "parse_number's answer")

    def bases(p):
        lang = p[0]
        ns = [int((pat * k)[:k]) for pat in c.pick(("317", "20"), ("317", "1001", "20", "123456")) for k in range(4, min(L.MAX_POWER[lang], c.pick(28, 100)) + 1, c.pick(6, 1))]
        return list(dict.fromkeys([L.spell(n, lang) for n in ns] + [" ".join([RUN[lang][i]] * n) for i in (0, 3) for n in c.pick((12,), (12, 40))]))
    foreign = lambda p: list(dict.fromkeys(CONN[p[0]] + ["-", "foo", "12", "!", ".", "\u0301", "\xad", "_", "Año", "the", "½", "twO", "y", "dos"]))
    explore_product(sp, [L.LANGS, bases, foreign], run8, split=2)

    # every character
    sp = c.space("characters", "every character of the BMP next to and between number words and digits: parse_ordinal is parse_number")

    def run7(sp, ch):
        lang, lo = ch
        r = RUN[lang]
        for i in range(lo, lo + 64):
            x = chr(i)
            if x in "'’ʼ":
                continue
            for s in (x, r[1] + x, x + r[1], r[1] + x + r[0], r[1] + " " + x + " " + r[0], x + " " + r[2], r[2] + " " + x, "12" + x):
                n, o = call("parse_number", s, lang), call("parse_ordinal", s, lang)
                sp.calls += 2
                if o[0] != "ok" or o[1] != n[1] or type(o[1]) is not type(n[1]):
                    sp.violation("parse_ordinal", (s, lang), n, o, "parse_number's answer")
    explore_product(sp, [L.LANGS, lambda p: range(0, 0x10000 if p[0] == "en" or c.thorough else 0x3100, 64)], run7, split=2)
    c.finish()


if __name__ == "__main__":
    main()
