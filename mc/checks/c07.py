"""C07: parse_number (and parse_ordinal) accept exactly one complete number."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, explore_product

OTHER = {"en": ["foo", "someone", "and", "y", "10", "½", "!", ".", "(", "-", "dos", "once"],
         "es": ["gato", "someone", "and", "10", "½", "¡", ".", "(", "-", "one", "third"],
         "hi": ["लोग", "और", "१०", "½", "।", ".", "(", "-", "one"],
         "ru": ["люди", "и", "10", "½", "!", ".", "(", "-", "one", "тисяча"],
         "uk": ["люди", "і", "10", "½", "!", ".", "(", "-", "one", "тысяча"]}


def token(w, lang):
    if w in L.SKIP[lang]:
        return L.conn_tok(w)
    if w in L.VOCAB[lang]:
        return L.num_tok(w, lang)
    if lang == "en" and w in L.EN_ORDINALS:
        return L.ord_tok(w)
    return L.oth_tok(w)


def wordlike(w):
    return any(x.isalnum() for x in w)


def build(words, lang, tight):
    toks = []
    for w in words:
        if toks and not (tight and not (wordlike(w) and wordlike(toks[-1][1]))):
            toks.append(L.ws_tok())
        toks.append(token(w, lang))
    return toks


def main():
    c = Check("C07")
    c.assumptions = ["what counts as a connector or number word is the reviewed vocabulary",
                     "parse_ordinal is judged on texts whose ordinals, if any, come last"]

    def judge(sp, words, lang):
        for tight in (False, True):
            toks = build(words, lang, tight)
            if tight and all(t[0] != "ws" for t in toks) == all(t[0] != "ws" for t in build(words, lang, False)) and \
                    L.text_of(toks) == L.text_of(build(words, lang, False)):
                continue
            s = L.text_of(toks)
            want = L.ref_parse_number(toks, lang)
            sp.traces += 1
            sp.expect("parse_number", (s, lang), ("ok", want), "one complete number, or None", "token sequence")
            ordinal_before_end = any(t[0] == "ord" for t in toks[:-1])
            if not ordinal_before_end:
                sp.expect("parse_ordinal", (s, lang), ("ok", L.ref_parse_number(toks, lang, True)),
                          "one complete number, or None")

    for lang in L.LANGS:
        words = RUN[lang][:6] + CONN[lang]
        words += [w for w in OTHER[lang] if w not in words]
        if lang == "en":
            words += ["third", "hundredth"]
        k = len(words)
        d = c.pick(4, 5)
        small = words if c.thorough else words[:8] + words[8::2]
        sp = c.space("mixtures-" + lang, "all sequences of <= %d of %d tokens, spaced and unspaced" % (d, len(small)))
        dims = [[n for n in range(1, d + 1)], lambda p, s=small: s]

        def rest(p, s=small):
            return s if len(p) <= p[0] else [None]
        dims = [range(1, d + 1)] + [rest] * d

        def run(sp, ch, lang=lang):
            judge(sp, [w for w in ch[1:] if w is not None], lang)
        explore_product(sp, dims, run, split=3)

    # a foreign token at every position of long, valid numbers
    sp = c.space("insertions", "every other token inserted at every position of valid numbers; outer white space")

    def numbers(p):
        lang = p[0]
        out = [5, 21, 100, 342, 1001, 21034, 5000000, 1234567]
        out += [10 ** 9 + 3, 98 * 10 ** 9 + 12345] if L.MAX_POWER[lang] > 10 else []
        out = [n for n in out if n < 10 ** L.MAX_POWER[lang]]
        return [(n, v) for n in out for v in L.VARIANTS[lang]]

    def run2(sp, ch):
        lang, (n, v), w = ch
        words = [x for part in L.spell_words(n, lang, v) for x in (part.replace("-", " - ").split() if lang == "en" else [part])]
        for i in range(len(words) + 1):
            judge(sp, words[:i] + [w] + words[i:], lang)
        s = L.spell(n, lang, v)
        for a, b in (("", " "), (" ", ""), ("\n", "\n"), ("\t ", " \r\n"), ("\u00a0", "\u3000")):
            sp.expect("parse_number", (a + s + b, lang), ("ok", n), "outer white space")
        for mark in "!?.;:\"«»()[]{}*&^%$#@~`|\\/<>=+_…—–।":
            for t in (mark + s, s + mark, s.replace(" ", mark, 1) if " " in s else s + mark):
                sp.expect("parse_number", (t, lang), ("ok", None), "a symbol makes it no number")
    explore_product(sp, [L.LANGS, numbers, lambda p: RUN[p[0]][:6] + OTHER[p[0]] + CONN[p[0]]], run2, split=2)

    # no number word at all
    sp = c.space("no-number", "white space, connectors, other words and symbols only, up to 3 tokens")

    def run3(sp, ch):
        lang = ch[0]
        s = "".join(ch[1:])
        body = s.strip()
        if body.isdecimal() or not body.isascii() and any(x.isdigit() for x in body):
            return
        for fn in ("parse_number", "parse_ordinal"):
            sp.expect(fn, (s, lang), ("ok", None), "no number word", "no number")
    stuff = lambda p: ["", " ", "-", "\n", "'", "’", "ʼ", "\xad", "foo", "\u0301", ".", "\u200b", "/"] + CONN[p[0]] + [
        OTHER[p[0]][0]]
    explore_product(sp, [L.LANGS] + [stuff] * c.pick(3, 4), run3, split=2)

    # long texts: a pattern repeated is one number only if the machine says so; a foreign token anywhere spoils it
    from mc import pump
    sp = c.space("long-texts", "patterns repeated 1..%d times, alone, framed, and with a foreign token at the end, start or middle" % c.pick(40, 130))

    def run4(sp, ch):
        lang, unit, n = ch
        r = RUN[lang]
        for words in pump.patterns(lang, n, unit, [(r[0],), (OTHER[lang][0],), ("!",)] + [(k,) for k in CONN[lang][:1]]):
            t = pump.toks(words, lang)
            sp.expect("parse_number", (L.text_of(t), lang), ("ok", L.ref_parse_number(t, lang)), "one complete number, or None", "long text")
            sp.expect("parse_ordinal", (L.text_of(t), lang), ("ok", L.ref_parse_number(t, lang, True)), "one complete number, or None")
    explore_product(sp, [L.LANGS, lambda p: pump.number_units(p[0]), pump.lengths(c.pick(40, 130), c.pick((64, 100, 300), (300, 1000, 3000)))],
                    run4, split=2)
    # valid numbers as long as can be, then spoilt
    sp = c.space("long-numbers", "the longest spellings, whole and with one token appended, prepended or inserted")

    def run5(sp, ch):
        lang, k, v = ch
        n = int(("317" * k)[:k])
        words = " ".join(L.spell_words(n, lang, v)).replace("-", " - ").split() if lang == "en" else L.spell_words(n, lang, v)
        judge(sp, words, lang)
        for w in (RUN[lang][0], OTHER[lang][0], "!", "12"):
            for i in (0, 1, len(words) // 2, len(words) - 1, len(words)):
                judge(sp, words[:i] + [w] + words[i:], lang)
    explore_product(sp, [L.LANGS, lambda p: range(1, L.MAX_POWER[p[0]] + 1), lambda p: L.VARIANTS[p[0]]], run5, split=2)

    # number words of every other language are other words
    sp = c.space("other-languages", "texts in the words of another language, the language given, alone and after own number words")

    def run6(sp, ch):
        lang, m, w = ch
        r = RUN[lang]
        v = RUN[m][1] if m != lang else r[1]
        for words in ((w,), (w, v), (v, w), (r[0], w), (r[3], w), (w, r[0]), (w, w), (w, v, w), (r[1], r[0], w)):
            toks = []
            for x in words:
                if toks:
                    toks.append(L.ws_tok())
                f = L.fold(x)
                toks.append(L.conn_tok(x) if f in L.SKIP[lang] else L.num_tok(x, lang) if f in L.FOLDED[lang] else
                            L.ord_tok(x) if lang == "en" and f in L.EN_ORDINALS else L.oth_tok(x))
            s = L.text_of(toks)
            sp.expect("parse_number", (s, lang), ("ok", L.ref_parse_number(toks, lang)), "words of another language", "other languages")
            if not any(t[0] == "ord" for t in toks[:-1]) and not (m == "en" and lang != "en" and w in L.EN_ORDINALS):
                sp.expect("parse_ordinal", (s, lang), ("ok", L.ref_parse_number(toks, lang, True)), "words of another language")
    own = lambda p: [w for w in list(L.VOCAB[p[1]]) + (list(L.EN_ORDINALS) if p[1] == "en" else [])
                     if p[0] == "uk" or not any(a in w for a in "'’")]
    explore_product(sp, [L.LANGS, lambda p: [m for m in L.LANGS if m != p[0]], own], run6, split=2)

    # every character as the foreign token
    import unicodedata
    sp = c.space("characters", "every character of the BMP before, after, between and inside number words")

    def run7(sp, ch):
        lang, lo = ch
        r = RUN[lang]
        a, b = r[1], r[0]
        for i in range(lo, lo + 64):
            x = chr(i)
            if x.isspace() or x in "'’ʼ\xad" or unicodedata.category(x)[0] in "MC" and i not in range(0x200b, 0x2070) and i > 31 or \
                    not L.fold(x) or x.lower() in L.SKIP[lang] or x == "_":
                continue
            word = x.isalnum()
            forms = ((x + a,), (a + x,), (a, x), (a, x, b), (a + x + b,), (x, a), (a + x, b), (a, x + b), (x,), (a, b, x))
            far = i >= 0x3100 and not c.thorough
            for ws in forms[:4] if far else forms:
                toks, ok = [], True
                for w in ws:
                    f = L.fold(w)
                    ok = ok and f in L.FOLDED[lang]
                    if ok:
                        toks += [L.num_tok(w, lang)]
                    if f in L.SKIP[lang] or lang == "en" and f in L.EN_ORDINALS:
                        break  # a connector or an ordinal made of the character and the word
                else:
                    s = " ".join(ws)
                    if s.isdecimal():
                        continue
                    want = L.ref_parse_number(toks, lang) if ok else None
                    for fn in ("parse_number",) if far else ("parse_number", "parse_ordinal"):
                        sp.expect(fn, (s, lang), ("ok", want), "a foreign character makes it no number", "character")
    explore_product(sp, [L.LANGS, lambda p: range(0, 0x10000 if p[0] == "en" or c.thorough else 0x3100, 64)], run7, split=2)

    # every kind of white space: it separates tokens and nothing more
    import sys
    sp = c.space("white-space", "every white-space character and pairs of them between numbers, connectors, other words and symbols")
    spaces = [chr(i) for i in range(sys.maxunicode + 1) if chr(i).isspace()]
    gaps = spaces + [x + y for x in spaces for y in c.pick(spaces[:6], spaces)] + [x * n for x in spaces for n in (3, 10, 100)]

    def run9(sp, ch):
        lang, a, b = ch
        for g in gaps:
            t = [a, L.ws_tok(g), b]
            for toks in (t, t + [L.ws_tok(g), L.oth_tok("foo")]):
                s = L.text_of(toks)
                sp.expect("parse_number", (s, lang), ("ok", L.ref_parse_number(toks, lang)), "white space between tokens", "white space")
                if len(toks) == 3:
                    sp.expect("parse_ordinal", (s, lang), ("ok", L.ref_parse_number(toks, lang, True)), "white space between tokens")
    some = lambda p: [L.num_tok(w, p[0]) for w in RUN[p[0]][:4]] + [L.conn_tok(k) for k in CONN[p[0]][:1]] + [L.oth_tok("foo"), L.oth_tok("!"), L.oth_tok("12")]
    explore_product(sp, [L.LANGS, some, some], run9, split=2)

    # ordinary words near numbers
    from mc.words import WORDS as NEAR
    sp = c.space("words-near-numbers", "ordinary words (articles, units, fractions, signs, ...) before, after, between number words and digits: no number")

    def run8(sp, ch):
        lang, w, n = ch
        r = RUN[lang]
        texts = [w, w + " " + n, n + " " + w, n + " " + w + " " + r[1], w + " " + n + " " + w, w + "-" + n, n + "-" + w, w + ", " + n, w.title() + " " + n,
                 "12 " + w, w + " 12", n + " " + w + " 12", w.upper() + " " + n + " " + r[3], n + " " + r[3] + " " + w]
        for k in CONN[lang][:1]:
            texts += [n + " " + k + " " + w, w + " " + k + " " + n, n + " " + w + " " + k + " " + r[1]]
        if "'" in w and lang != "uk":
            return
        for s in texts:
            sp.expect("parse_number", (s, lang), ("ok", None), "an ordinary word makes it no number", "words")
            sp.expect("parse_ordinal", (s, lang), ("ok", None), "an ordinary word makes it no number")
    explore_product(sp, [L.LANGS, lambda p: NEAR[p[0]], lambda p: RUN[p[0]][:c.pick(6, 14)]], run8, split=2)
    c.finish()


if __name__ == "__main__":
    main()
