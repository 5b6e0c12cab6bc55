"""C18: vocabulary extraction follows the rule forms (all small rule files, one per combination)."""
import ast
import itertools
import json
import os
import shutil

from mc import gen
from mc.core import Check, explore_product

TABLES = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]

SECTIONS = {  # section name: are its rules vocabulary?
    "%spellout-cardinal": True, "%spellout-cardinal-masculine": True, "%%spellout-cardinal-tens": True,
    "%spellout-numbering": True, "%spellout-numbering-year": True, "%spellout-numbering-verbose": True,
    "%spellout-cardinal-cents": False, "%%cents-m": False, "%spellout-numbering-cents-x": False,
    "%spellout-ordinal": False, "%spellout-ordinal-masculine": False, "%%and": False, "%%ord-teen": False, "%lenient-parse": False,
    "%%frac": False, "%digits-ordinal": False}

KEYS = [0, 1, 2, 7, 9, 10, 11, 15, 19, 20, 21, 30, 50, 71, 90, 99, 100, 200, 500, 900, 1000, 2000, 5000, 10000, 20000, 100000, 1000000,
        2000000, 10 ** 7, 10 ** 9, 2 * 10 ** 9, 10 ** 12, 10 ** 15, 10 ** 18, 10 ** 24, 3 * 10 ** 24, 10 ** 27, 10 ** 36, 10 ** 60, 10 ** 100]
NOT_NUMBERS = ["x.x", "-x", "x.0", "0.x", "Inf", "NaN", "1100/100", "1.5", "x,x", "", "one", "1e3", "10^3"]


def zeros(n):
    z = 0
    while n and n % 10 == 0:
        z, n = z + 1, n // 10
    return z


# ---- rule forms: name -> (body for a word, kind, words defined)
def plain(w):
    return [("%s;" % w, [w]), ("%s" % w, [w]), (w[0] + "\xad" + w[1:] + ";", [w]), (w + " " + w + ";", [w + " " + w]),
            ("\xad" + w + ";", [w]), (w + "-" + w + ";", [w + "-" + w])]


def tens(w):
    return [("%s>>;" % w, [w]), ("%s[>>];" % w, [w]), ("%s[ >>];" % w, [w]), ("%s >>;" % w, [w]), ("%s[-\xad>>];" % w, [w]),
            ("%s[ e >>];" % w, [w]), ("%s[ >%%%%and>];" % w, [w]), ("%s>%%%%ord-x>;" % w, [w]), (w[0] + "\xad" + w[1:] + "[\xad>>];", [w]),
            ("%s %s[ >>];" % (w, w), [w + " " + w]), ("[>>];", []), (">>;", []), (">>%s;" % w, []), (" [ >>];", [])]


def scales(w):
    v, u = w + "a", w + "ów"
    return [("<< %s[ >>];" % w, [w]), ("<< %s>>;" % w, [w]), ("<< %s >>;" % w, [w]), ("<%%spellout-cardinal< %s[ >>];" % w, [w]),
            ("<%%%%x-y< %s[ e >>];" % w, [w]), ("<< %s[ >%%%%and>];" % w, [w]), ("<%%x< %s>%%%%y>;" % w, [w]),
            ("<< $(cardinal,one{%s}other{%s})$[ >>];" % (w, v), [w, v]),
            ("<%%x< $(cardinal,one{%s}few{%s}other{%s})$[ >>];" % (w, v, u), [w, v, u]),
            ("<%%x< $(cardinal,zero{%s}one{%s}two{%s}other{%s})$ >>;" % (u, v, w, u), [w, v, u]),
            ("<%%x< $(cardinal,zero{%s}one{%s}two{%s}few{%s}many{%s}other{%s})$[ >>];" % (w + "0", w, w + "2", v, u, w + "6"), [w + "0", w, w + "2", v, u, w + "6"]),
            ("<< $(ordinal,one{%s}other{%s})$ $(cardinal,one{%s}other{%s})$[ >>];" % (w + "x", v, u, w + "é"), [w + "x", v, u, w + "é"]),
            ("<< %s %s[ >>];" % (w, v), [w + " " + v]), ("<< %s\xad%s[\xad>>];" % (w, v), [w + v]),
            ("<<%s[>>];" % w, []), ("<<%s[ >>];" % w, []), ("<%%x<%s[ >>];" % w, []), ("<<\xad%s[\xad>>];" % w, []),
            ("<< [ >>];", []), ("<< >>;", []), ("<< >%%2d-year>;", []), ("<<-%s[ >>];" % w, [])]


def references(w):
    return [("=%spellout-cardinal=;", []), ("=#,##0=;", []), ("=#,##0.#=;", []), ("%s =%%x=;" % w, []), ("=%%%%y= %s;" % w, []),
            ("=%%x=%s;" % w, []), ("%s=%%x=[ >>];" % w, []), ("<< %s =%%x=[ >>];" % w, [])]


KINDS = {"plain": plain, "tens": tens, "scales": scales, "references": references}


def meaning(kind, key, words):
    """{table: {word: value}} defined by one rule with an integer key."""
    out = {t: {} for t in TABLES}
    for w in words:
        if kind == "plain" and key < 100:
            out["UNIT_NUMBERS" if key < 10 else "DIRECT_NUMBERS"][w] = key
        elif kind == "tens" and str(key)[0] != "1" and zeros(key) in (1, 2):
            out["TENS" if zeros(key) == 1 else "HUNDREDS"][w] = key
        elif kind == "scales" and zeros(key) >= 2:
            out["BIG_POWERS_OF_TEN"][w] = 10 ** zeros(key)
    return out


def merge(*parts):
    out = {t: {} for t in TABLES}
    for p in parts:
        for t in TABLES:
            out[t].update(p.get(t, {}))
    return out


def target(tables, skip, long_scale):
    d = {t: dict(sorted(tables[t].items(), key=lambda x: (x[1], x[0]))) for t in TABLES}
    d["SKIP_TOKENS"] = sorted(skip)
    d["USE_LONG_SCALE"] = long_scale
    return d


def main():
    c = Check("C18")
    c.assumptions = ["rule files have the shape of the CLDR number-spelling files; keys with one non-zero leading digit",
                     "no extracted word is spelled 'true' or 'false'", "a word defined twice in the same table is not judged"]
    base = gen.scratch_base()
    EMPTY = {t: {} for t in TABLES}

    def one(rules, tables, sup=None, skip=(), long_scale=False, note=""):
        """One synthetic language: rules = [(section, key, body)]."""
        sections = {}
        for s, k, b in rules:
            sections.setdefault(s, {})[str(k)] = b
        s = dict(EMPTY, SKIP_TOKENS=list(skip), USE_LONG_SCALE=long_scale, **(sup or {}))
        return (json.dumps({"rbnf": {"identity": {}, "rbnf": {"SpelloutRules": sections}}}, ensure_ascii=False),
                json.dumps(s, ensure_ascii=False), target(merge(tables, sup or {}), skip, long_scale), rules, sup)

    def run_batch(sp, langs, depth=0):
        """Runs the script once on all these synthetic languages and compares every target."""
        work = os.path.join(base, "w%d" % os.getpid())
        if os.path.exists(work):
            shutil.rmtree(work)
        gen.make_tree(work, set())
        for n in os.listdir(os.path.join(work, gen.OUT)):
            os.remove(os.path.join(work, gen.OUT, n))
        for i, (raw, sup, want, rules, over) in enumerate(langs):
            for d, text in ((gen.RAW, raw), (gen.SUP, sup)):
                with open(os.path.join(work, d, "s%05d.json" % i), "w", encoding="utf8") as f:
                    f.write(text)
        status, err = gen.run_script(work, base)
        sp.calls += 1
        if status != 0 and len(langs) > 1:
            m = len(langs) // 2
            run_batch(sp, langs[:m])
            if not sp.violations:
                run_batch(sp, langs[m:])
            return
        for i, (raw, sup, want, rules, over) in enumerate(langs):
            sp.traces += 1
            p = os.path.join(work, gen.OUT, "s%05d.py" % i)
            try:
                with open(p, encoding="utf8") as f:
                    text = f.read()
                got = ast.literal_eval(text.split("=", 1)[1].strip())
                obs = ("ok", got)
            except (OSError, ValueError, SyntaxError, IndexError) as e:
                obs = ("exc", "%s (exit status %d %s)" % (type(e).__name__, status, err[-200:]))
            ok = obs[0] == "ok" and got == want and list(got) == list(want) and all(
                list(got[t].items()) == list(want[t].items()) and all(type(v) is int for v in got[t].values()) for t in TABLES)
            sp.outcomes.add(hash(str(obs)))
            if not ok:
                sp.violation("extract", [rules, over or {}], ("ok", want), obs, "vocabulary of a rule source")
            elif len(sp.samples) < 2 and any(want[t] for t in TABLES):
                sp.samples.append({"rules": rules, "supplementary": over or {}, "vocabulary": {t: want[t] for t in TABLES if want[t]}})
        shutil.rmtree(work, ignore_errors=True)

    def space(name, bound, langs):
        sp = c.space(name, "%s: %d rule sources" % (bound, len(langs)))
        n = 150
        batches = [langs[i:i + n] for i in range(0, len(langs), n)]
        explore_product(sp, [range(len(batches))], lambda sp, ch: run_batch(sp, batches[ch[0]]))
        sp.extra_states += len(langs)
        sp.transitions += sum(len(x[3]) for x in langs)

    try:
        W = "wörd"
        bodies = [(k, b, ws) for k, f in KINDS.items() for b, ws in f(W)]
        yes = [s for s, v in SECTIONS.items() if v]
        no = [s for s, v in SECTIONS.items() if not v]

        langs = [one([(s, k, b)], meaning(kind, k, ws)) for kind, b, ws in bodies for k in KEYS for s in yes[:c.pick(2, 6)]]
        space("rule-forms", "every rule body form x every key x vocabulary sections", langs)

        langs = [one([(s, k, b)], meaning(kind, k, ws) if SECTIONS[s] else EMPTY) for s in SECTIONS for kind, b, ws in bodies
                 for k in (5, 12, 30, 300, 1000, 2000000)]
        space("sections", "every section name x rule forms", langs)

        # every section name of CLDR (frozen list) and every part of such a name after every kind of start
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sections.json"), encoding="utf8") as f:
            names = json.load(f)
        parts = sorted({p for n in names for p in n.lstrip("%").split("-")} | {"cent", "percents", "Cents", "year-", "s", "2", "é"})
        names = dict.fromkeys(names)
        for p in parts:
            for start in ("%spellout-cardinal-", "%%spellout-cardinal-", "%spellout-numbering-", "%%spellout-numbering-"):
                names[start + p] = None
                names["%%" + p + "-" + start.lstrip("%")[:-1]] = None
                names[start + p + "-x"] = None
            names["%spellout-" + p] = names["%%" + p] = names["%spellout-ordinal-" + p] = None
        langs = []
        for n in names:
            counted = ("spellout-cardinal" in n or "spellout-numbering" in n) and "cents" not in n
            rules = [(n, 6, "plano;"), (n, 16, "dieci;"), (n, 60, "tenta[->>];"), (n, 600, "hunda >>;"), (n, 1000, "<< mila[ >>];")]
            langs.append(one(rules, merge(*(meaning(k, key, [w]) for k, key, w in (("plain", 6, "plano"), ("plain", 16, "dieci"),
                             ("tens", 60, "tenta"), ("tens", 600, "hunda"), ("scales", 1000, "mila")))) if counted else EMPTY))
        space("section-names", "every section name of CLDR and every recombination of its parts", langs)

        # every key, each with a word of its own, in one source per rule form
        every = list(range(0, c.pick(131, 1000))) + [100 * d + 1 for d in range(1, 10)] + [d * 10 ** z for d in range(1, 10) for z in range(2, 40)]
        every += [11, 21, 99, 101, 111, 201, 999, 1001, 2001, 21001, 1111, 123456789, 10 ** 9 + 1, 10 ** 18 + 1, 10 ** 100, 2 * 10 ** 99, 10 ** 600]
        every = [k for k in dict.fromkeys(every) if str(k).strip("0") == "" or len(str(k).rstrip("0")) == 1 or k % 10 or k < 100]
        langs = []
        for s in yes[:c.pick(2, 6)]:
            for kind, f in KINDS.items():
                for i in range(len(f("w"))):
                    rules, what = [], []
                    for j, k in enumerate(every):
                        b, ws = f("q" + "".join("abcdefghij"[int(x)] for x in str(j)))[i]
                        rules.append((s, k, b))
                        what.append(meaning(kind, k, ws))
                    if not any(ws == [] for _, ws in [f("w")[i]]) or kind == "references":
                        langs.append(one(rules, merge(*what)))
        space("every-key", "%d keys in one source, every rule form" % len(every), langs)

        # every character at the start, in the middle and at the end of a word, in every kind of rule
        odd = set(";<>=[]{}$%#,()\xad")
        hi = 0x10000
        chars = [chr(n) for n in range(33, hi) if not 0xD800 <= n < 0xE000 and chr(n) not in odd and not chr(n).isspace()] + list("𝟙🎉𐍈")
        spots = [("x%sy", None), ("%sx", None), ("x%s", None)]
        langs = []
        for i in range(0, len(chars), 80):
            for spot, _ in spots:
                words = [spot % ch for ch in chars[i:i + 80]]
                rules, what = [], []
                for j, w in enumerate(words):
                    rules.append((yes[0], j + 10, w + ";"))
                    what.append(meaning("plain", j + 10, [w]))
                    rules.append((yes[1], 10 ** (j + 2), ("<< %s[ >>];", "<< $(cardinal,one{%s}other{%s})$[ >>];")[j % 2].replace("%s", w)))
                    what.append(meaning("scales", 10 ** (j + 2), [w]))
                for j, w in enumerate(words[:17]):
                    k = (j + 2) * 10 if j < 8 else (j - 7) * 100
                    if str(k)[0] != "1":
                        rules.append((yes[2], k, w + ("[->>];", " >>;")[j % 2]))
                        what.append(meaning("tens", k, [w]))
                langs.append(one(rules, merge(*what)))
                rest = words[17:]
                for m in range(0, len(rest), 16):
                    rules, what = [], []
                    for j, w in enumerate(rest[m:m + 16]):
                        k = (j + 2) * 10 if j < 8 else (j - 6) * 100
                        rules.append((yes[2], k, w + ("[->>];", " >>;")[j % 2]))
                        what.append(meaning("tens", k, [w]))
                    langs.append(one(rules, merge(*what)))
        space("characters", "%d characters at the start, middle and end of a word" % len(chars), langs)

        langs = [one([(yes[0], x, b)], EMPTY) for x in NOT_NUMBERS for _, b, _ in bodies]
        # a rule with a number key next to it is still extracted
        langs += [one([(yes[0], x, b), (yes[0], 4, "vier;"), (yes[1], 1000, "<< mil[ >>];")],
                      merge(meaning("plain", 4, ["vier"]), meaning("scales", 1000, ["mil"]))) for x in NOT_NUMBERS for _, b, _ in bodies[::3]]
        space("keys", "keys that are not numbers", langs)

        # two rules in one source: the union, in the order of values; across sections
        forms = [("plain", 3, 0), ("plain", 14, 0), ("plain", 14, 2), ("tens", 30, 0), ("tens", 40, 2), ("tens", 500, 5), ("scales", 100, 0),
                 ("scales", 1000, 7), ("scales", 10 ** 6, 8), ("scales", 2 * 10 ** 6, 3), ("references", 7, 0), ("references", 80, 3),
                 ("plain", 150, 0), ("tens", 10, 0), ("scales", 1000, 12), ("scales", 20, 0), ("tens", 31, 2)]
        if c.thorough:
            forms += [("plain", k, i) for k in (0, 9, 10, 99) for i in (1, 3, 5)] + [("tens", k, i) for k in (20, 90, 200) for i in (1, 3, 6, 9)] + [
                ("scales", k, i) for k in (1000, 10 ** 9, 10 ** 15) for i in (1, 4, 6, 9, 10, 11)]
        langs = []
        for (k1, n1, i1), (k2, n2, i2) in itertools.product(forms, forms):
            b1, w1 = KINDS[k1]("beta")[i1]
            b2, w2 = KINDS[k2]("alfa")[i2]
            for s1, s2 in ((yes[0], yes[3]), (yes[1], no[3]), (no[0], yes[4])):
                if n1 == n2 and s1 == s2:
                    continue
                langs.append(one([(s1, n1, b1), (s2, n2, b2)], merge(meaning(k1, n1, w1) if SECTIONS[s1] else EMPTY,
                                                                     meaning(k2, n2, w2) if SECTIONS[s2] else EMPTY)))
        space("two-rules", "every ordered pair of representative rules in two sections", langs)
        forms3 = forms[:c.pick(7, 12)]
        langs = []
        for combo in itertools.product(forms3, repeat=3):
            if len({n for _, n, _ in combo}) == 3:
                rules, parts = [], []
                for (k, n, i), w in zip(combo, ("gama", "delta", "omega")):
                    b, ws = KINDS[k](w)[i]
                    rules.append((yes[0], n, b))
                    parts.append(meaning(k, n, ws))
                langs.append(one(rules, merge(*parts)))
        space("three-rules", "every triple of representative rules in one section", langs)

        # supplementary overlays
        over = [{t: {"extra": v}} for t, v in zip(TABLES, (4, 44, 40, 400, 10 ** 9))]
        over += [{t: {W: v}} for t, v in zip(TABLES, (8, 88, 80, 800, 10 ** 8))]
        over += [{t: {"z": 3, "a": 3, "m": 2, "ß": 3, "Z": 3, "ab": 10}} for t in TABLES]
        over += [{TABLES[0]: {W: 6, "x": 1}, TABLES[4]: {"y": 10 ** 3, "b": 10 ** 3, "big": 10 ** 30}}, {}]
        over += [{"UNIT_NUMBERS": {"same": 5}}, {"DIRECT_NUMBERS": {"same": 12}}, {"TENS": {"same": 30}}, {"HUNDREDS": {"same": 300}},
                 {"BIG_POWERS_OF_TEN": {"same": 1000}}, {"UNIT_NUMBERS": {"same": 12}, "DIRECT_NUMBERS": {"same": 5, W: 5}},
                 {"UNIT_NUMBERS": {"same": 0}, "TENS": {"same": 0}, "BIG_POWERS_OF_TEN": {"same": 100}}]
        over += [{t: {W: v}} for t in TABLES for v in (5, 12, 30)]      # the word of the rule, in any table
        # words of one value that differ in one character: sorted by code points, in every table
        alike = ["a%sb" % ch for ch in chars if ch not in "\"\\"] + ["a b", "a", "ab", "b", "A", "a-", "-a", "aa"]
        sort = [{t: {w: 7 for w in (alike[::-1] if t == "TENS" else alike)}} for t in TABLES]
        skips = [((), False), (("z", "a", "-"), True), (("y",), False), (("b", "A", "ä", "and"), True)]
        langs = []
        for kind, b, ws in (bodies if c.thorough else bodies[::2]):
            for k in (5, 12, 30, 300, 1000):
                for o in over:
                    sk = skips[(k + len(b)) % 4]
                    langs.append(one([(yes[0], k, b)], meaning(kind, k, ws), o, *sk))
        langs += [one([], EMPTY, o, sk, ls) for o in over + sort for sk, ls in skips]
        space("overlays", "rules x supplementary entries x connectors", langs)

        # all keys of one language at once: order and completeness
        words = ["w" + ch for ch in "zyxwvutsrqponmlkjihgfedcba"]
        langs = []
        for r in range(c.pick(20, 100)):
            ks = KEYS[r % 7:] + KEYS[:r % 7]
            for kind in ("plain", "tens", "scales"):
                i = [0, 2, 0][("plain", "tens", "scales").index(kind)]
                rules, parts = [], []
                for j, k in enumerate(ks):
                    w = words[(j * 7 + r) % 26] + "x" * (j // 26)
                    b, ws = KINDS[kind](w)[i]
                    rules.append((yes[r % len(yes)], k, b))
                    parts.append(meaning(kind, k, ws))
                langs.append(one(rules, merge(*parts)))
        space("whole-languages", "every key in one source, rotated", langs)
    finally:
        gen.remove(base)
    c.finish()


if __name__ == "__main__":
    main()
