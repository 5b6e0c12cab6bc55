"""C05: sentence rewriting changes nothing but the numbers."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, explore_tree, explore_product

N, O, C, X, P, W = "num", "ord", "conn", "oth", "sep", "ws"


def alphabet(lang):
    """Tokens, most important first.  'oth' tokens are words or single symbols."""
    n = lambda w: L.num_tok(w, lang)
    if lang == "en":
        return [n("two"), L.ws_tok(" "), L.oth_tok("Café"), L.conn_tok("And"), L.sep_tok("."), L.conn_tok("-"),
                n("Hundred"), L.ord_tok("Third"), L.oth_tok("!"), L.ws_tok("\n"), L.sep_tok(","), L.oth_tok("'"),
                L.oth_tok("12"), L.oth_tok("("), n("TWENTY"), L.oth_tok("some\xadone"), L.ws_tok("\u00a0"),
                L.oth_tok("¿"), L.oth_tok("ПЯТЬ"), n("thousand")]
    if lang == "es":
        return [n("dos"), L.ws_tok(" "), L.oth_tok("Años"), L.conn_tok("Y"), L.sep_tok("."), n("treinta"),
                n("Cien"), L.oth_tok("!"), L.ws_tok("\t"), L.sep_tok(","), L.oth_tok("-"), L.oth_tok("12"),
                L.oth_tok("¡"), n("MILLO\u0301N"), L.oth_tok("A\u0301r\xadbol"), L.oth_tok("and"), n("mil"), L.ws_tok("\u2003")]
    if lang == "hi":
        return [n("दो"), L.ws_tok(" "), L.oth_tok("लोग"), n("सौ"), L.sep_tok("."), L.oth_tok("।"),
                L.oth_tok("Café"), L.oth_tok("-"), L.ws_tok("\n"), L.sep_tok(","), L.oth_tok("१२"), L.oth_tok("!"),
                n("हज़ार"), n("पाँच"), L.oth_tok("की"), L.oth_tok("॥")]
    if lang == "ru":
        return [n("два"), L.ws_tok(" "), L.oth_tok("Ещё"), n("сто"), L.sep_tok("."), L.oth_tok("й"),
                L.oth_tok("!"), L.oth_tok("-"), L.ws_tok("\n"), L.sep_tok(","), L.oth_tok("12"), L.oth_tok("«"),
                n("ДВАДЦАТЬ"), n("тысяча"), L.oth_tok("Й"), L.oth_tok("И"), L.oth_tok("…")]
    return [n("два"), L.ws_tok(" "), L.oth_tok("Їжак"), n("сто"), L.sep_tok("."), n("пʼять"), L.oth_tok("Об'єк\xadт"),
            n("дев'ять"), L.oth_tok("-"), L.ws_tok("\n"), L.sep_tok(","), L.oth_tok("12"), L.oth_tok("!"),
            L.oth_tok("«"), n("ТИСЯЧА"), L.oth_tok("мʼяч"), n("П’ЯТЬ")]


def wordlike(t):
    return t[1][0].isalnum() or t[1][-1].isalnum()


def succ_for(lang, toks):
    def f(st):
        machine, prev = st
        return [(t[1], (machine.step(t), wordlike(t))) for t in toks if not (prev and wordlike(t))]
    return f


def main():
    c = Check("C05")
    c.assumptions = ["texts are built from tokens (number words, ordinals, connectors, other words, punctuation, white space); "
                     "two word-like tokens are never written without something between them"]

    def check(lang):
        def g(sp, labels, st):
            if labels:
                s = "".join(labels)
                sp.traces += 1
                sp.expect("parse", (s, lang), ("ok", st[0].result()), "sentence rewriting", "sentence")
        return g

    plan = {"en": c.pick([(20, 4), (9, 5), (6, 6)], [(20, 5), (10, 6), (6, 8)]),
            "es": c.pick([(18, 4), (6, 6)], [(18, 5), (8, 6), (5, 8)]),
            "hi": c.pick([(16, 4), (5, 6)], [(16, 5), (8, 6), (5, 8)]),
            "ru": c.pick([(17, 4), (5, 6)], [(17, 5), (7, 6), (5, 8)]),
            "uk": c.pick([(17, 4), (6, 5)], [(17, 5), (7, 6), (5, 8)])}
    for lang in L.LANGS:
        toks = alphabet(lang)
        for n, d in plan[lang]:
            sp = c.space("texts-%s-%dx%d" % (lang, n, d), "all texts of <= %d tokens out of %d" % (d, min(n, len(toks))))
            explore_tree(sp, (L.Sentence(L.LONG[lang]), False), succ_for(lang, toks[:n]), check(lang), d)

    # phrase level: longer texts made of whole phrases
    for lang in L.LANGS:
        toks = alphabet(lang)
        num, other = toks[0], [t for t in toks if t[0] == X and t[1][0].isalpha()]
        hundred = [t for t in toks if t[0] == N][1]
        sp_ = L.ws_tok(" ")
        phrases = [[num], [num, sp_, hundred], [num, sp_, sp_, hundred], [other[0]], [other[-1]], [L.oth_tok("12")]]
        if L.SKIP[lang]:
            k = [t for t in toks if t[0] == C][0]
            phrases += [[k], [num, sp_, k, sp_, num], [num, sp_, k]]
        if lang == "en":
            phrases += [[L.ord_tok("third")], [num, L.conn_tok("-"), L.ord_tok("third")]]
        if lang == "hi":
            phrases += [[num, L.oth_tok("।")]]
        glue = [[sp_], [L.sep_tok("."), sp_], [L.sep_tok(","), sp_], [sp_, sp_], [L.oth_tok("-") if "-" not in L.SKIP[lang]
                                                                                else L.conn_tok("-")], [L.oth_tok("/")],
                [L.sep_tok(".")], [sp_, L.sep_tok(","), sp_], [L.ws_tok("\n")], [L.oth_tok(":"), sp_]]
        if not c.thorough:
            glue = glue[:7]
        k = c.pick(3, 4)
        if k == 4:
            phrases, glue = phrases[:9], glue[:6]
        space = c.space("phrases-" + lang, "%d phrases joined by every glue, outer white space and brackets" % k)
        dims = []
        for i in range(k):
            dims.append(phrases)
            if i < k - 1:
                dims.append(glue)

        def run(space, ch, lang=lang):
            toks = [t for part in ch for t in part]
            space.expect("parse", (L.text_of(toks), lang), ("ok", L.ref_parse(toks, lang)), "sentence of phrases", "phrases")
            if len(toks) % 3 == 0:
                t2 = [L.ws_tok("\n"), L.oth_tok("(")] + toks + [L.oth_tok(")"), L.ws_tok("\t")]
                space.expect("parse", (L.text_of(t2), lang), ("ok", L.ref_parse(t2, lang)), "sentence of phrases in brackets")
        explore_product(space, dims, run, split=2)

    # texts without number words come back as they are, whatever the characters
    sp = c.space("verbatim", "every printable/odd character between, before and after ordinary words and numbers")
    chars = [chr(i) for i in list(range(0, 0x250)) + list(range(0x370, 0x530)) + list(range(0x900, 0x980)) +
             list(range(0x2000, 0x2070)) + list(range(0x20a0, 0x20c0)) + [0x3000, 0x3002, 0xff0c, 0xff0e, 0x1f600, 0xfeff]]
    import unicodedata
    WORDS = {"en": ("Zorro", "two", "2"), "es": ("Zorro", "dos", "2"), "hi": ("लोग", "दो", "2"), "ru": ("Люди", "два", "2"),
             "uk": ("Люди", "два", "2")}

    def run(space, ch):
        lang, x = ch
        w, n, d = WORDS[lang]
        cat = unicodedata.category(x)
        joins = x.isalnum() or x in "_\xad" or cat[0] == "M"  # may belong to the word
        texts = [w + " " + x + " " + w, x + " " + w, w + " " + x, w + x + w, x + w, w + x]
        for s in texts:
            if "." in s or "," in s or not L.is_recognised(x, lang):
                space.expect("parse", (s, lang), ("ok", s.strip()), "text without number words", "verbatim")
        if not joins and not x.isspace() and not (lang == "uk" and x in "'’") and x.lower() not in L.SKIP[lang]:
            for s, want in ((n + x + w, d + x + w), (w + x + n, w + x + d), (n + " " + x + " " + n, d + " " + x + " " + d),
                            (x + n + x, x + d + x), (n + x, d + x)):
                space.expect("parse", (s, lang), ("ok", want.strip()), "a symbol next to a number word", "symbol")
    explore_product(sp, [L.LANGS, chars], run, split=2)

    # every code point of Unicode, many in one text
    sp = c.space("code-points", "every code point in, around and as a word, and next to number words")

    def run11(space, ch):
        lang, k = ch
        w, n, d = WORDS[lang]
        plain, mixed, want = [], [], []
        for x in map(chr, range(k * 64, k * 64 + 64)):
            if L.is_recognised(x, lang) or x.lower() in L.SKIP[lang]:
                continue
            plain.append("%s%s %s%s %s%s%s %s" % (w, x, x, w, w, x, w, x))
            if unicodedata.category(x)[0] == "M" or (lang == "uk" and x in "'’"):
                continue
            if x.isalnum() or x in "_\xad":
                mixed.append("%s%s%s | %s%s%s" % (n, x, w, w, x, n))
                want.append(mixed[-1])
            elif x.isspace():
                mixed.append("%s%s%s | %s%s%s" % (n, x, w, w, x, n))
                want.append("%s %s | %s%s%s" % (d, w, w, x, d))
            else:
                mixed.append("%s%s%s | %s%s%s | %s %s %s" % (n, x, w, w, x, n, n, x, n))
                want.append("%s%s%s | %s%s%s | %s %s %s" % (d, x, w, w, x, d, d, x, d))
        if plain:
            s = " ; ".join(plain)
            space.expect("parse", (s, lang), ("ok", s.strip()), "text without number words", "verbatim")
        if mixed:
            space.expect("parse", (" ; ".join(mixed), lang), ("ok", " ; ".join(want)), "symbols next to number words", "symbol")
    planes = [p for p in range(0x110000 // 64) if c.thorough or p < 0x20000 // 64 or p % 64 == 0 or 0xe0000 <= p * 64 < 0xe0200]
    explore_product(sp, [L.LANGS, planes], run11, split=2)

    # long texts: patterns of phrases repeated
    from mc import pump
    top = c.pick(24, 80)
    sp = c.space("long-texts", "patterns of text and numbers repeated 1..%d times (and up to %d), framed by other phrases" % (top, c.pick(200, 2000)))

    def run5(space, ch):
        lang, unit, n = ch
        u = pump.text_units(lang)
        frames = [u[0], u[1], ("two" if lang == "en" else alphabet(lang)[0][1],)] if n <= top else u[:1]
        for words in pump.patterns(lang, n, unit, frames):
            t = pump.toks(words, lang)
            space.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "long text", "long text")
    explore_product(sp, [L.LANGS, lambda p: pump.text_units(p[0]) + pump.number_units(p[0])[:6],
                         pump.lengths(top, c.pick((50, 200), (200, 2000)))], run5, split=2)
    # two units alternating
    sp = c.space("alternating-texts", "every two patterns alternating 2..%d times" % c.pick(6, 20))

    def run6(space, ch):
        lang, a, b, n = ch
        t = pump.toks((a + b) * n, lang)
        space.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "long text", "alternating")
    units = lambda p: pump.text_units(p[0]) + pump.number_units(p[0])[:c.pick(4, 12)]
    explore_product(sp, [L.LANGS, units, units, c.pick([2, 3, 6], [2, 3, 4, 6, 9, 20])], run6, split=2)
    # long tokens
    sp = c.space("long-tokens", "white space, punctuation, digits and words of every length")

    def run7(space, ch):
        lang, x, n = ch
        w, nm, d = WORDS[lang]
        s = w + " " + x * n + " " + nm + " " + x * n + " " + w
        want = w + " " + x * n + " " + d + " " + x * n + " " + w
        if x.isspace():
            want = w + " " + x * n + " " + d + " " + w
        space.expect("parse", (s, lang), ("ok", want), "long token", "long token")
    explore_product(sp, [L.LANGS, ["x", "!", "7", "\u00e9", "_", " ", "\n", "(", "*", "xy "], pump.lengths(c.pick(70, 300), (128, 256, 1000, 5000))], run7, split=2)

    # white space of every kind and length between every two tokens
    sp = c.space("white-space", "every two or three tokens with every run of white space between them")
    import itertools
    ws1 = [" ", "\t", "\n", "\u00a0", "\r", "\u2003", "\u3000", "\x0b"]
    runs = [x * n for x in ws1[:4] for n in c.pick((1, 2, 3, 4, 5, 6, 7, 8, 12), range(1, 33))]
    runs += ["".join(x) for n in (1, 2, 3) for x in itertools.product(ws1[:c.pick(3, 5)] if n > 2 else ws1[:c.pick(6, 8)], repeat=n)]
    runs = list(dict.fromkeys(runs))

    def run8(space, ch):
        lang, a, b = ch
        toks = alphabet(lang)
        for r in runs:
            w = [L.ws_tok(x) for x in r]
            for t in [[a] + w + [b], [a] + w + [b] + w + [toks[0]]] + ([[toks[2], L.sep_tok(".")] + w + [b]] if a is toks[0] else []):
                space.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "white space between tokens", "white space")
    extra = [L.oth_tok("A"), L.oth_tok("B2"), L.oth_tok(")"), L.oth_tok("7"), L.oth_tok("?")]
    al = lambda p: [t for t in alphabet(p[0]) if t[0] != W] + extra
    explore_product(sp, [L.LANGS, al, al], run8, split=2)

    # every sequence of symbols around one number word and one other word
    sp = c.space("symbol-runs", "runs of <= %d symbols before, between and after a word and a number" % c.pick(3, 4))
    syms = ["(", ")", "!", "?", ":", ";", '"', "/", "…", "*", "%", "—", "#", "&", "+", "=", "@", "[", "]", "|", "~", "^", "<", ">", "\\", "$", "_ "]

    def run10(space, ch):
        lang, s = ch[0], "".join(ch[1:])
        w, n, d = WORDS[lang]
        for text, want in ((w + s + n, w + s + d), (s + n + s, s + d + s), (n + s + w, d + s + w), (n + s + n, d + s + d),
                           (n + " " + s + " " + n, d + " " + s + " " + d), (w + " " + s + n + s + " " + w, w + " " + s + d + s + " " + w)):
            space.expect("parse", (text, lang), ("ok", want.strip()), "symbols around words and numbers", "symbols")
    k = c.pick(3, 4)
    few = [x for x in syms if x != "_ "]
    explore_product(sp, [L.LANGS] + [few[:c.pick(14, 16)]] + [[""] + few[:c.pick(14, 16)]] * (k - 1), run10, split=3)

    # ordinary words that stand near numbers
    from mc.words import WORDS as NEAR
    sp = c.space("words-near-numbers", "ordinary words (articles, units, fractions, signs, ...) before, after, between and among number words")

    def run11(space, ch):
        lang, w, n = ch
        r = RUN[lang]
        W1 = L.oth_tok(w)
        N1, B, S = L.num_tok(n, lang), L.num_tok(r[1], lang), L.ws_tok()
        D, V = L.oth_tok("12"), L.oth_tok(NEAR[lang][(len(w) * 7) % len(NEAR[lang])])
        texts = [[W1, S, N1], [N1, S, W1], [N1, S, W1, S, B], [W1, S, N1, S, W1], [N1, S, W1, S, V, S, B], [W1, S, B, S, N1], [W1, L.sep_tok(","), S, N1],
                 [L.oth_tok(w.capitalize()), S, N1, L.sep_tok(".")], [V, S, W1, S, N1], [D, S, W1, S, N1], [N1, S, D, S, W1], [N1, L.oth_tok("("), W1, L.oth_tok(")"), S, N1],
                 [L.oth_tok(w.upper()), S, N1, S, B]]
        for k in CONN[lang][:1]:
            K = L.conn_tok(k)
            texts += [[N1, S, K, S, W1, S, B], [W1, S, K, S, N1], [N1, S, K, S, W1], [N1, S, W1, S, K, S, B], [B, S, K, S, N1, S, W1]]
        if lang == "en":
            h = L.conn_tok("-")
            texts += [[W1, h, N1], [N1, h, W1], [N1, h, W1, h, B], [L.ord_tok("third"), S, W1], [W1, S, L.ord_tok("third"), S, N1], [N1, S, W1, S, L.ord_tok("third")]]
        else:
            h = L.oth_tok("-")
            if "-" not in L.SKIP[lang]:
                texts += [[W1, h, N1], [N1, h, W1]]
        for t in texts:
            if lang != "uk" and "'" in w and w.upper() == t[0][1]:
                continue
            space.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "an ordinary word near a number", "words")
    explore_product(sp, [L.LANGS, lambda p: NEAR[p[0]], lambda p: RUN[p[0]][:c.pick(9, 14)]], run11, split=2)
    sp = c.space("word-pairs", "every two ordinary words in a row, alone and around a number")

    def run12(space, ch):
        lang, v, w = ch
        n = RUN[lang][c.pick(2, 2)]
        N1, S, A, B = L.num_tok(n, lang), L.ws_tok(), L.oth_tok(v), L.oth_tok(w)
        for t in ([A, S, B], [A, S, N1, S, B], [N1, S, A, S, B, S, N1], [A, S, B, S, N1]):
            space.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "ordinary words near a number", "word pairs")
    explore_product(sp, [L.LANGS, lambda p: NEAR[p[0]], lambda p: NEAR[p[0]][::c.pick(3, 1)]], run12, split=2)
    c.finish()


if __name__ == "__main__":
    main()
