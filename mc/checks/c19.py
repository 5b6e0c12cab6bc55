"""C19: number words inside longer words are never touched."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, explore_product

LETTERS = {"en": "abcdefghijklmnopqrstuvwxyz", "es": "abcdefghijklmnopqrstuvwxyzñ",
           "hi": "कखगघचजतदनपबमरलवसहअआइउएओ" + "ािीुूेैोौ्ं", "ru": "абвгдежзиклмнопрстуфхцчшщъыьэюя",
           "uk": "абвгґдежзиіклмнопрстуфхцчшщьюяєї"}
EXTRA = "0159_éßаñ二Zﬁı"
PAD = {"en": ["s", "es", "ed", "er", "some", "ty", "teen", "ths", "sth", "ieths", "un", "y", "th", "fy", "eth", "ieth"],
       "es": ["s", "es", "mente", "avo", "des", "ito"], "hi": ["वाँ", "वां", "ों", "गुना"], "ru": ["ый", "ая", "дцать", "надцать", "жды"],
       "uk": ["ий", "а", "дцять", "надцять", "жди"]}


def value(word, lang):
    """(kind, value) of a whole word, or None: cardinal, ordinal, connector."""
    for i, x in enumerate(word):  # not one word: an apostrophe counts as a letter between Ukrainian letters only
        if x in "'’" and (lang != "uk" or not word[i - 1:i].isalpha() or not word[i + 1:i + 2].isalpha()):
            return "split", None
    f = L.fold(word)
    if f in L.FOLDED[lang]:
        return "num", L.FOLDED[lang][f][1]
    if f in L.SKIP[lang]:
        return "conn", None
    # a number word with an English ordinal ending is an ordinal (any language)
    base = L.IRREGULAR.get(f, f)
    for a, b in (("", ""), ("ieth", "y"), ("th", "")):
        if base.endswith(a) and base[:len(base) - len(a)] + b in L.FOLDED[lang]:
            return "ord", L.FOLDED[lang][base[:len(base) - len(a)] + b][1]
    return None


def main():
    c = Check("C19")
    c.assumptions = ["a word is a number word if it is in the reviewed vocabulary (letter case and accents aside), and an ordinal if "
                     "it is a number word with an ordinal ending (-th, -ieth) or an irregular ordinal"]

    def judge(sp, word, lang, full=True):
        v = value(word, lang)
        if v and v[0] == "split":
            return
        sp.traces += 1
        if v is None:
            sp.expect("parse", (word, lang), ("ok", word), "a longer word is no number", "longer word")
            sp.expect("parse_number", (word, lang), ("ok", None), "a longer word is no number")
            if full:
                sp.expect("parse_ordinal", (word, lang), ("ok", None), "a longer word is no number")
                r = RUN[lang][1]
                n = str(L.VOCAB[lang][r][1])
                sp.expect("parse", (r + " " + word + " " + r + ", " + word, lang), ("ok", n + " " + word + " " + n + ", " + word),
                          "a longer word is no number")
                for k in CONN[lang][:1]:
                    sp.expect("parse", (r + " " + k + " " + word, lang), ("ok", n + " " + k + " " + word), "a longer word is no number")
                    if any(x.isalnum() for x in word):
                        sp.expect("parse_ordinal", (r + " " + k + " " + word, lang), ("ok", None), "a longer word is no number")
                for fn in ("parse_number", "parse_ordinal") if any(x.isalnum() for x in word) else ():
                    sp.expect(fn, (r + " " + word, lang), ("ok", None), "a longer word is no number")
        elif v[0] == "num":
            sp.expect("parse", (word, lang), ("ok", str(v[1])), "itself a number word")
            sp.expect("parse_number", (word, lang), ("ok", v[1]), "itself a number word")
        elif v[0] == "ord":
            sp.expect("parse_number", (word, lang), ("ok", None), "an ordinal is no cardinal")

    def words(p):
        return list(L.VOCAB[p[0]]) + L.SKIP[p[0]] + (list(L.EN_ORDINALS) if p[0] == "en" else [])

    sp = c.space("affixes", "every vocabulary word x every letter/digit before, after, both, in the middle; usual affixes")

    def run(sp, ch):
        lang, w = ch
        if w == "-":
            return
        letters = LETTERS[lang] + EXTRA
        for x in letters:
            judge(sp, w + x, lang)
            judge(sp, x + w, lang)
            judge(sp, x + w + x, lang, False)
            if c.thorough:
                for y in letters:
                    judge(sp, x + w + y, lang, False)
                    judge(sp, w + x + y, lang, False)
                    judge(sp, x + y + w, lang, False)
                for i in range(1, len(w)):
                    judge(sp, w[:i] + x + w[i:], lang, False)
        for x in PAD[lang] + PAD["en"]:
            for y in ("", x):
                judge(sp, w + x + y, lang)
                judge(sp, x + w + y, lang)
            judge(sp, w.upper() + x.upper(), lang, False)
        for i in range(1, len(w)):       # shorter words: every proper prefix and suffix
            judge(sp, w[:i], lang)
            judge(sp, w[i:], lang)
            judge(sp, w[:i] + w[i + 1:], lang, False)
            judge(sp, w[:i] + w[i] + w[i:], lang, False)
    explore_product(sp, [L.LANGS, words], run, split=2)

    sp = c.space("joined", "every two vocabulary words joined into one")

    def run2(sp, ch):
        lang, w = ch
        if w == "-":
            return
        for x in words((lang,)):
            if x != "-":
                judge(sp, w + x, lang, False)
    explore_product(sp, [L.LANGS, words], run2, split=2)

    sp = c.space("english-ordinal-endings", "stems x ordinal endings, English")
    stems = list(L.VOCAB["en"]) + list(L.EN_ORDINALS) + ["ba", "brea", "tru", "eig", "nin", "twelf", "fif", "sever", "cr", "d", ""]
    ends = ["th", "ieth", "eth", "st", "nd", "rd", "ths", "thth", "iethth", "h", "t", "fth", "first", "second", "third", "fifth",
            "eighth", "ninth", "twelfth", "y", "ies", "thy"]

    def run3(sp, ch):
        w = ch[0] + ch[1]
        if w:
            judge(sp, w, "en")
            judge(sp, ch[1] + ch[0], "en")
            v = value(w, "en")
            if v is None:
                sp.expect("parse", ("Twenty " + w.title() + " two", "en"), ("ok", "20 " + w.title() + " 2"), "a longer word is no number")
            elif v[0] == "ord" and w in L.EN_ORDINALS:
                sp.expect("parse", (w, "en"), ("ok", str(v[1])), "an ordinal")
    explore_product(sp, [stems, ends], run3)

    sp = c.space("not-given", "longer words without a language")

    def run4(sp, ch):
        lang, w = ch
        for x in LETTERS[lang][:c.pick(4, 30)]:
            for s in (w + x, x + w):
                if all(value(s, m) is None for m in L.LANGS) and w != "-":
                    for fn, want in (("parse", s), ("parse_number", None), ("parse_ordinal", None)):
                        sp.expect(fn, (s,), ("ok", want), "a longer word is no number", "no language")
    explore_product(sp, [L.LANGS, lambda p: words(p)[::c.pick(3, 1)]], run4, split=2)

    sp = c.space("long-affixes", "runs of up to %d digits, letters and underscores glued before and after number words" % c.pick(24, 200))

    def run10(sp, ch):
        lang, w, x = ch
        if w == "-":
            return
        for n in [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24] + c.pick([], [40, 100, 200]):
            run = (x * n)[:n]
            for s in (w + run, run + w, run + w + run, w.upper() + run, w + "_" + run):
                judge(sp, s, lang, n < 5)
    runs = ["0", "2", "2020", "1234567890", "_", "a", "th", "s", "٣", "x1", "z"]
    explore_product(sp, [L.LANGS, lambda p: words(p)[::c.pick(3, 1)], runs], run10, split=2)

    # joining words and ordinary words with every ending are no number words, with a number around them or not
    from mc.words import WORDS as ORDINARY
    sp = c.space("other-words-with-endings", "joining words and ordinary words with number-like endings and beginnings")

    def run9(sp, ch):
        lang, w = ch
        for e in ("th", "ieth", "st", "nd", "rd", "s", "ty", "teen", "y", "ies", "'s", "ths", "nth"):
            for x in (w + e, e + w, w + w):
                if x.isalpha():
                    judge(sp, x, lang)
    explore_product(sp, [L.LANGS, lambda p: list(dict.fromkeys(CONN[p[0]] + CONN["en"] + CONN["es"] + [x for x in ORDINARY[p[0]] if x.isalpha()]))], run9, split=2)

    sp = c.space("letter-case", "number words glued to other words in camel case, capitals, with underscores and digits")
    glued = {"en": ["phase", "Version", "X", "iphone", "some", "A"], "es": ["fase", "Versión", "X", "a"], "hi": ["लोग", "X", "a"],
             "ru": ["фаза", "Версия", "Х", "а"], "uk": ["фаза", "Версія", "Х", "а"]}

    def run5(sp, ch):
        lang, w = ch
        if w == "-":
            return
        forms = dict.fromkeys([w, w.title() if "'" not in w else w.capitalize(), w.upper()])
        for g in glued[lang] + ["12", "3D"]:
            for f in forms:
                for s in (g + f, f + g, g + "_" + f, f + "_" + g, f + g.title(), f + g.upper(), g + f + g, "_" + f, f + "_", "__" + f, f + "_1", f + "1", "1" + f):
                    judge(sp, s, lang, False)
        for v in RUN[lang][:c.pick(6, 14)]:
            for s in (w + v.title(), w.title() + v.title(), v.title() + w.title(), w.upper() + v, w + "_" + v, v + "_" + w, v.upper() + "_" + w.upper(),
                      v + w + v, w + w):
                judge(sp, s, lang, False)
    explore_product(sp, [L.LANGS, words], run5, split=2)

    sp = c.space("repeated-letters", "every letter of every word repeated, doubled, dropped or swapped with its neighbour")

    def run6(sp, ch):
        lang, w = ch
        if w == "-":
            return
        for i in range(len(w)):
            for n in c.pick((2, 3, 4), (2, 3, 4, 5, 9)):
                judge(sp, w[:i] + w[i] * n + w[i + 1:], lang, n == 3)
            if i:
                judge(sp, w[:i - 1] + w[i] + w[i - 1] + w[i + 1:], lang, False)
                judge(sp, w[:i - 1] + w[i - 1:i + 1] * 2 + w[i + 1:], lang, False)
        judge(sp, w * 2, lang)
        judge(sp, w * 3, lang)
    explore_product(sp, [L.LANGS, words], run6, split=2)

    # every letter and digit of the BMP as an affix
    import unicodedata
    sp = c.space("every-letter", "every alphanumeric character of the BMP glued to number words")

    def run7(sp, ch):
        lang, lo = ch
        few = RUN[lang][:2] + (["third", "seventh"] if lang == "en" else [])
        for i in range(lo, lo + 64):
            x = chr(i)
            if not x.isalnum() or not L.fold(x):
                continue
            far = i >= 0x3100 and not c.thorough
            for w in few[:1] if far else few:
                for s in (w + x, x + w, w[:1] + x + w[1:]) if far else (w + x, x + w, w[:1] + x + w[1:], w + x + w):
                    judge(sp, s, lang, False)
    explore_product(sp, [L.LANGS, lambda p: range(0, 0x10000 if p[0] == "en" or c.thorough else 0x3100, 64)], run7, split=2)

    sp = c.space("two-letters", "representative words x every two letters before or after")

    def run8(sp, ch):
        lang, w, x = ch
        for y in LETTERS[lang]:
            judge(sp, w + x + y, lang, False)
            judge(sp, x + y + w, lang, False)
            judge(sp, x + w + y, lang, False)
    explore_product(sp, [L.LANGS, lambda p: RUN[p[0]][:c.pick(6, 14)] + CONN[p[0]][:1] + (["third", "sixth", "fortieth"] if p[0] == "en" else []),
                         lambda p: LETTERS[p[0]]], run8, split=2)
    c.finish()


if __name__ == "__main__":
    main()
