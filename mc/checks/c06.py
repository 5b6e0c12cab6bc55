"""C06: separators and ordinary words isolate numbers (a relation between calls)."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, call, explore_product

FILL = {"en": ["foo", "Seconds"], "es": ["gato", "Años"], "hi": ["लोग"], "ru": ["люди"], "uk": ["люди", "обʼєкт"]}


def fragments(lang, n2, n3):
    """Texts without outer white space."""
    r = RUN[lang]
    base = r[:7] + CONN[lang] + FILL[lang][:1] + ["12", "!"] + (["third", "hundredth"] if lang == "en" else [])
    one = [w for w in base]
    two = [a + " " + b for a in base[:n2] for b in base]
    three = [a + " " + b + " " + c for a in r[:n3] for b in base[:n3] + CONN[lang] for c in r[:n3]]
    out, seen = [], set()
    for f in one + two + three:
        if f not in seen:
            seen.add(f)
            out.append(f)
    unspaced = ["-" + r[0], "(" + r[0], r[0] + "-", r[0] + ")", "12-" + r[0], "$" + r[1], r[0] + "-" + r[2], "'" + r[0], r[0] + "/" + r[1],
                "…" + r[0], r[0] + "…", "!" + r[1] + "!", r[0] + ":", "- " + r[0], r[1] + " -", "\"" + r[0] + "\"", "#" + r[2] + " " + r[0], "/", "-", "-12"]
    return out + [f for f in unspaced if f not in seen]


def main():
    c = Check("C06")
    c.assumptions = ["fragments have no outer white space; separators carry the white space"]
    frs = {l: fragments(l, c.pick(6, 12), c.pick(3, 5)) for l in L.LANGS}
    done = {}

    def alone(sp, f, lang):
        k = (f, lang)
        if k not in done:
            done[k] = call("parse", f, lang)
            sp.calls += 1
        return done[k]

    def seps(lang):
        out = [".", ",", ". ", " , ", " " + FILL[lang][0] + " ", ".. ", ", " + FILL[lang][-1] + " "]
        return out if c.thorough else out[:6]

    def relate(sp, parts, lang):
        text = "".join(parts)
        want = ""
        for i, p in enumerate(parts):
            if i % 2:
                want += p
            else:
                o = alone(sp, p, lang)
                if o[0] != "ok":
                    return sp.violation("parse", (p, lang), ("ok", "a string"), o, "a fragment alone")
                want += o[1]
        sp.traces += 1
        sp.expect("parse", (text, lang), ("ok", want), "each fragment as if alone: %r" % (parts,), "fragments joined by separators")

    sp = c.space("pairs", "a separator b, all pairs of fragments")

    def run(sp, ch):
        lang, a, s = ch
        for b in frs[lang]:
            relate(sp, (a, s, b), lang)
    explore_product(sp, [L.LANGS, lambda p: frs[p[0]], lambda p: seps(p[0])], run, split=2)

    sp = c.space("chains", "chains of 3 (thorough: 4) fragments over a short list")

    def short(lang):
        r = RUN[lang]
        x = [r[0], r[2], r[3], r[3] + " " + r[1], r[1] + " " + r[0], FILL[lang][0], "12", r[0] + " " + (CONN[lang] or ["!"])[0]]
        return x + (["third", "and"] if lang == "en" else [])

    def seps2(lang):
        return seps(lang)[:c.pick(5, 5)]

    def run2(sp, ch):
        lang = ch[0]
        relate(sp, ch[1:], lang)
    k = c.pick(3, 4)
    dims = [L.LANGS]
    for i in range(k):
        dims.append(lambda p: short(p[0]))
        if i < k - 1:
            dims.append(lambda p: seps2(p[0]))
    explore_product(sp, dims, run2, split=2)

    # far apart: the separator still isolates after long texts
    sp = c.space("long-chains", "one fragment pair repeated up to 200 times")

    def run3(sp, ch):
        lang, a, s, n = ch
        relate(sp, ((a, s) * n)[:-1], lang)
    explore_product(sp, [L.LANGS, lambda p: short(p[0]), lambda p: seps2(p[0]), [10, 50, 200]], run3, split=2)

    # absolute meaning, against the reference machine
    sp = c.space("reference", "number runs around a separator, against the reference machine")

    def toks(words, lang):
        out = []
        for w in words:
            if w not in (".", ",") and out:
                out.append(L.ws_tok())
            out.append(L.sep_tok(w) if w in (".", ",") else L.conn_tok(w) if w in L.SKIP[lang] else
                       L.oth_tok(w) if w in FILL[lang] else L.num_tok(w, lang))
        return out

    def run4(sp, ch):
        lang = ch[0]
        t = toks([w for w in ch[1:] if w], lang)
        sp.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "separator between numbers", "separator")
    w = lambda p: RUN[p[0]][:c.pick(6, 9)]
    explore_product(sp, [L.LANGS, w, lambda p: [""] + w(p)[:4] + CONN[p[0]], lambda p: [".", ",", FILL[p[0]][0]],
                         lambda p: [""] + CONN[p[0]] + w(p), w, lambda p: [""] + w(p)[:2]], run4, split=2)

    # long fragments on either side of one separator
    from mc import pump
    sp = c.space("long-fragments", "repeated patterns of up to %d words on either side of a separator" % c.pick(120, 600))

    def run5(sp, ch):
        lang, u, n, s = ch
        a = L.text_of(pump.toks(u * n, lang)).strip()
        for b in short(lang)[:4]:
            relate(sp, (a, s, b), lang)
            relate(sp, (b, s, a), lang)
        relate(sp, (a, s, a), lang)
    explore_product(sp, [L.LANGS, lambda p: pump.number_units(p[0])[:c.pick(7, 13)] + [u for u in pump.text_units(p[0])[:c.pick(3, 8)]],
                         pump.lengths(c.pick(16, 60), (64, 150)), lambda p: seps2(p[0])[:c.pick(3, 5)]], run5, split=2)

    # ordinary words as separators, against the parts alone
    from mc.words import WORDS as NEAR
    sp = c.space("words-between", "every ordinary word as the separator between fragments")

    def run6(sp, ch):
        lang, w, a = ch
        for b in short(lang)[:c.pick(5, 10)]:
            relate(sp, (a, " " + w + " ", b), lang)
            relate(sp, (a, " " + w.title() + " " if "'" not in w else " " + w + " ", b), lang)
    explore_product(sp, [L.LANGS, lambda p: NEAR[p[0]], lambda p: short(p[0])], run6, split=2)
    c.finish()


if __name__ == "__main__":
    main()
