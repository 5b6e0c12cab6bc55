"""C09: case, accents, spacing and apostrophe style do not change a number."""
import itertools
import unicodedata

from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, explore_product

nfc = lambda s: unicodedata.normalize("NFC", s)
nfd = lambda s: unicodedata.normalize("NFD", s)
APOS = "'’ʼ"
SPACES = [chr(i) for i in range(0x110000) if chr(i).isspace()]
VOWELS = {"ru": "аеёиоуыэюя", "uk": "аеєиіїоуюя", "es": "aeiou", "en": "aeiou"}


def cases(w):
    out = [w, w.upper(), w.title() if "'" not in w else w.capitalize(), w.swapcase(),
           "".join(x.upper() if i % 2 else x.lower() for i, x in enumerate(w)), w[:-1].lower() + w[-1].upper()]
    return dict.fromkeys(out)


def strip_marks(w):
    return "".join(x for x in nfd(w) if unicodedata.category(x) != "Mn")


def accents(w, lang):
    out = [w, nfc(w), nfd(w)]
    if lang == "es":
        out.append(strip_marks(w))
    if lang in ("ru", "uk", "es"):
        for i, x in enumerate(w):
            if x.lower() in VOWELS[lang]:
                out.append(w[:i + 1] + "\u0301" + w[i + 1:])
                out.append(nfc(w[:i + 1] + "\u0301" + w[i + 1:]))
    if lang == "ru" and "ё" in w:
        out.append(w.replace("ё", "е"))
    return dict.fromkeys(out)


def apostrophes(w, lang):
    if lang != "uk" or not any(a in w for a in APOS):
        return [w]
    plain = w
    for a in APOS:
        plain = plain.replace(a, "'")
    return [plain.replace("'", a) for a in APOS + ""] + [plain.replace("'", "")]


def soft(w, every):
    out = [w]
    if len(w) > 1:
        out += ["\xad".join(w), w[:1] + "\xad" + w[1:], w + "\xad", "\xad" + w]
        if every:
            out += [w[:i] + "\xad" + w[i:] for i in range(2, len(w))]
    return out


def main():
    c = Check("C09")
    c.assumptions = ["accents may be left out in Spanish and Russian (ё); a stress mark (U+0301) may be added on a vowel",
                     "Hindi vowel signs and the nukta are letters' parts, varied only between composed and decomposed form"]

    def same_everywhere(sp, s, n, lang, why, extra=True):
        sp.traces += 1
        sp.expect("parse_number", (s, lang), ("ok", n), why, "spelling variation")
        sp.expect("parse", (s, lang), ("ok", str(n)), why)
        if extra:
            sp.expect("parse_ordinal", (s, lang), ("ok", n), why)
            sp.expect("parse", ("(x " + s + ", z)", lang), ("ok", "(x %d, z)" % n), why)
            sp.expect("parse_fraction", (s + "/" + s, lang), ("ok", "%d/%d" % (n, n)), why)

    sp = c.space("word-variations", "every form x case x accents x apostrophe x soft hyphens")

    def run(sp, ch):
        lang, w = ch
        n = L.VOCAB[lang][w][1]
        for a in apostrophes(w, lang):
            for i, acc in enumerate(accents(a, lang)):
                for j, cs in enumerate(cases(acc)):
                    for k, s in enumerate(soft(cs, c.thorough)):
                        same_everywhere(sp, s, n, lang, "case/accent/apostrophe/soft hyphen", k == 0 or c.thorough)
    explore_product(sp, [L.LANGS, lambda p: list(L.VOCAB[p[0]])], run, split=2)

    sp = c.space("ordinal-variations", "English ordinals x case x soft hyphens")

    def runo(sp, ch):
        o, = ch
        n = L.VOCAB["en"][L.EN_ORDINALS[o]][1]
        for cs in cases(o):
            for s in soft(cs, True):
                sp.expect("parse_ordinal", (s, "en"), ("ok", n), "ordinal variation", "ordinal")
                sp.expect("parse", ("(x " + s + ", z)", "en"), ("ok", "(x %d, z)" % n), "ordinal variation")
                sp.expect("parse", ("x " + s + " two", "en"), ("ok", "x %d 2" % n), "ordinal variation")
    explore_product(sp, [list(L.EN_ORDINALS)], runo)

    # compositions: every word of a number varied independently
    sp = c.space("number-variations", "composed numbers, every word varied independently, and white space")
    nums = [0, 21, 42, 101, 205, 999, 1005, 2019, 30016, 100001, 1000000, 5000305, 10 ** 9 + 9 * 10 ** 6]

    def varied(w, lang):
        if w in L.SKIP[lang]:
            return [w, w.upper()]
        out = []
        for a in apostrophes(w, lang)[:c.pick(2, 4)]:
            acc = list(accents(a, lang))
            for x in [acc[0], acc[2 if len(acc) > 2 else -1], acc[-1]]:
                out += [x, x.upper(), x.capitalize()]
        return list(dict.fromkeys(out))

    def run2(sp, ch):
        lang, n, v = ch
        words = L.spell(n, lang, v).replace("-", " - ").split() if lang == "en" else L.spell_words(n, lang, v)
        opts = [varied(w, lang) for w in words]
        if not c.thorough:
            opts = [o[:2] + o[-1:] if len(words) > 3 else o for o in opts]
        if len(words) > 6:
            opts = [o[:2] for o in opts]
        for combo in itertools.product(*opts):
            same_everywhere(sp, " ".join(combo), n, lang, "words of a number varied", False)
    explore_product(sp, [L.LANGS, lambda p: [n for n in nums if n < 10 ** L.MAX_POWER[p[0]]], lambda p: L.VARIANTS[p[0]]], run2, split=3)

    sp = c.space("white-space", "every Unicode white space character between, before and after the words of numbers")

    def run3(sp, ch):
        lang, n, x = ch
        for v in L.VARIANTS[lang]:
            words = L.spell_words(n, lang, v)
            if len(words) < 2:
                continue
            for gap in (x, x + x, x + " ", " " + x, "\n" + x + "\t"):
                s = gap.join(words)
                same_everywhere(sp, s, n, lang, "white space between words", False)
                same_everywhere(sp, gap + s + gap, n, lang, "white space between and around words", False)
                sp.expect("parse", ("(x" + x + s + gap + "z)", lang), ("ok", "(x%s%d z)" % (x, n)), "white space in text")
            for i in range(1, len(words)):
                s = " ".join(words[:i]) + x + x + " ".join(words[i:])
                same_everywhere(sp, s, n, lang, "white space at one gap", False)
            sp.expect("parse_fraction", (x.join(words) + x + "/" + x + x.join(words), lang), ("ok", "%d/%d" % (n, n)), "white space")
    explore_product(sp, [L.LANGS, [21, 342, 1001, 5000017], SPACES], run3, split=2)

    # adding marks and apostrophes never changes which words are numbers: non-words stay non-words
    sp = c.space("language-not-given", "variations with the language detected")

    def run4(sp, ch):
        lang, n = ch
        s = L.spell(n, lang)
        if L.ref_detect(s.split()) != lang:
            return
        for t in dict.fromkeys([s, s.upper(), s.title() if "'" not in s else s, nfd(s), nfc(s), s.replace(" ", "\u00a0"),
                                "\xad".join(s), nfd(s.upper())]):
            sp.expect("parse_number", (t,), ("ok", n), "variation, language detected", "detected")
            sp.expect("parse", (t,), ("ok", str(n)), "variation, language detected")
    explore_product(sp, [L.LANGS, lambda p: list(range(0, 100, c.pick(3, 1))) + [n for n in nums if n < 10 ** L.MAX_POWER[p[0]]]], run4, split=2)

    # lengths: white space, soft hyphens and accents repeated
    sp = c.space("lengths", "runs of white space, of soft hyphens and of accents of every length to 70, and long ones")

    def run5(sp, ch):
        lang, n, k = ch
        words = L.spell_words(n, lang)
        for x in (" ", "\t", "\n", "\u3000", " \n"):
            g = (x * k)[:k]
            if len(words) > 1:
                same_everywhere(sp, g.join(words), n, lang, "long white space between words")
                same_everywhere(sp, " ".join(words[:-1]) + g + words[-1], n, lang, "long white space at one gap", False)
            sp.expect("parse_number", (g + " ".join(words) + g,), ("ok", n), "long white space around, language detected") \
                if L.ref_detect(words) == lang else None
            sp.expect("parse_number", (g + " ".join(words) + g, lang), ("ok", n), "long white space around")
            sp.expect("parse_ordinal", (g + " ".join(words) + g, lang), ("ok", n), "long white space around")
            sp.expect("parse", ("x" + g + " ".join(words) + g + "z", lang), ("ok", "x" + g + "%d z" % n), "long white space in text")
        soften = [" ".join(w[:1] + "\xad" * k + w[1:] for w in words), "\xad" * k + " ".join(words), " ".join(words) + "\xad" * k]
        if lang != "hi" and k <= 300:
            soften += [" ".join(w[:1] + "\u0301" * k + w[1:] if len(w) > 1 else w for w in words)]
        for s in soften:
            sp.expect("parse_number", (s, lang), ("ok", n), "many soft hyphens or accents", "many marks")
            sp.expect("parse", ("(x " + s + ", z)", lang), ("ok", "(x %d, z)" % n), "many soft hyphens or accents")
    explore_product(sp, [L.LANGS, [2, 42, 342, 1001], list(range(1, 71)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10000]], run5, split=3)

    # every mixture of upper and lower case
    sp = c.space("case-mixtures", "every mixture of upper and lower case letters of every word of at most %d letters" % c.pick(8, 12))

    def run6(sp, ch):
        lang, w = ch
        n = L.VOCAB[lang][w][1] if w in L.VOCAB[lang] else L.VOCAB["en"][L.EN_ORDINALS[w]][1]
        for mask in itertools.product((str.lower, str.upper), repeat=len(w)):
            s = "".join(f(x) for f, x in zip(mask, w))
            if w in L.VOCAB[lang]:
                sp.expect("parse_number", (s, lang), ("ok", n), "mixed case", "mixed case")
            else:
                sp.expect("parse_ordinal", (s, lang), ("ok", n), "mixed case", "mixed case")
            sp.expect("parse", ("x " + s + ", z", lang), ("ok", "x %d, z" % n), "mixed case")
    explore_product(sp, [[l for l in L.LANGS if l != "hi"],
                         lambda p: [w for w in list(L.VOCAB[p[0]]) + (list(L.EN_ORDINALS) if p[0] == "en" else [])
                                    if len(w) <= c.pick(8, 12)]], run6, split=2)
    c.finish()


if __name__ == "__main__":
    main()
