"""C01: every cardinal's standard spelling parses to its value."""
from mc import lang as L
from mc.core import Check, explore_product

GROUP = {"en": 3, "es": 6, "ru": 3, "uk": 3}


def group_values(lang, full):
    if lang == "hi":
        return list(range(1, 100))
    if full:
        return list(range(1, 1000))
    return [1, 2, 7, 10, 11, 15, 19, 20, 21, 30, 42, 88, 99, 100, 101, 110, 115, 120, 121, 200, 305, 500, 712, 999]


def main():
    c = Check("C01")
    c.assumptions = [
        "the standard spellings are the hand-written ones in mc/lang.py",
        "Ukrainian scale words above 10**9 in the nominative singular only (the only form the vocabulary has)",
    ]

    def one(sp, n, lang, variants=None, also=False):
        for v in variants or L.VARIANTS[lang]:
            s = L.spell(n, lang, v)
            sp.traces += 1
            sp.expect("parse_number", (s, lang), ("ok", n), "value of the spelled-out integer %d" % n,
                      "spelling of %d" % n)
            if also:
                sp.expect("parse_ordinal", (s, lang), ("ok", n), "value of the spelled-out integer %d" % n)
                sp.expect("parse", (s, lang), ("ok", str(n)), "digits of the spelled-out integer %d" % n)

    top = c.pick(20000, 400000)
    sp = c.space("all-small", "every n < %d, 5 languages, every connector variant" % top)
    explore_product(sp, [[(l, b) for l in L.LANGS for b in range(0, top, 250)], lambda p: range(p[0][1], p[0][1] + 250)],
                    lambda sp, ch: one(sp, ch[1], ch[0][0], also=ch[1] < 2000 or ch[1] % 10 == 0))

    # one group, every value, at every scale position, alone / with a unit / with the group below
    def positions(lang):
        if lang == "hi":
            return [p for p, _ in L.HI_SCALES if p != 2]
        top = L.MAX_POWER[lang]
        return list(range(GROUP[lang], top, GROUP[lang]))

    def high(lang):
        if lang == "es":
            vals = list(range(1, 1000)) + [1000, 1001, 2000, 9999, 21000, 100000, 101101, 999999, 500200, 30031]
        else:
            vals = group_values(lang, True)
        return vals

    def low_parts(lang, p):
        below = 100 if lang == "hi" else 10 ** GROUP[lang]
        lows = [0, 1, 15, 100, below - 1]
        if p > GROUP.get(lang, 2):
            lows.append(10 ** (5 if lang == "hi" else GROUP[lang]) if p != 5 else 1000)
        return lows

    sp = c.space("group-at-each-scale", "every group value at every scale position x 5-6 lower parts")
    step = c.pick(7, 1)

    def run(sp, ch):
        lang, p, g0, low = ch
        for i, g in enumerate(high(lang)):
            if i % 25 == g0:
                # quick: the plain group for every value, lower parts for a fixed subset
                if low and step > 1 and i % step != p % step and g > 20:
                    continue
                one(sp, g * 10 ** p + low, lang)
    explore_product(sp, [L.LANGS, lambda q: positions(q[0]), range(25), lambda q: low_parts(q[0], q[1])], run, split=3)

    # combinations of non-zero groups
    def combos(lang, k, vals):
        ps = [0] + positions(lang)
        if lang == "hi":
            ps = [0, 2] + [p for p in ps if p]
        return ps, k, vals

    sp = c.space("zero-group-patterns", "up to k non-zero groups at any positions, small value alphabets")
    shapes = {
        "en": (c.pick(4, 8), c.pick([1, 17, 340], [1, 17, 340])),
        "es": (c.pick(3, 4), c.pick([1, 21, 1000, 350100], [1, 21, 1000, 350100])),
        "hi": (c.pick(4, 7), [1, 2, 10, 99]),
        "ru": (c.pick(4, 8), c.pick([1, 14, 352], [1, 14, 352])),
        "uk": (c.pick(2, 3), c.pick([1, 14, 352], [1, 14, 352])),
    }

    def first(q):
        lang = q[0]
        ps = combos(lang, 0, 0)[0]
        return [(p, v) for p in ps for v in ([1, 2, 9] if lang == "hi" and p == 2 else shapes[lang][1])]

    def run2(sp, ch):
        lang, (p0, v0) = ch
        ps, k, vals = combos(lang, *shapes[lang])
        order = [p for p in ps if p < p0]

        def rec(n, below, left):
            sp.extra_states += 1
            sp.transitions += 1
            one(sp, n, lang)
            if left:
                for i, p in enumerate(below):
                    for v in ([1, 2, 9] if lang == "hi" and p == 2 else vals):
                        rec(n + v * 10 ** p, below[:i], left - 1)
        rec(v0 * 10 ** p0, order, k - 1)
    explore_product(sp, [L.LANGS, first], run2, split=2)

    # long spellings: every number of digits, every group filled in the same way
    sp = c.space("long-spellings", "every number of digits x digit patterns, every variant")

    def patterns(q):
        lang, k = q
        out = {int(str(d) * k) for d in range(1, 10)} | {10 ** k - 1, 10 ** (k - 1) + 1, 10 ** (k - 1), 10 ** k - 10 ** (k // 2)}
        for cycle in ("123456789", "101", "110", "1001", "20", "305070", "9000001", "100000", "412", "11", "1020", "711000"):
            for shift in range(c.pick(2, len(cycle))):
                s = (cycle * k)[shift:shift + k]
                if s[0] != "0":
                    out.add(int(s))
        return sorted(out)

    def lengths(q):
        return range(1, L.MAX_POWER[q[0]] + 1)
    explore_product(sp, [L.LANGS, lengths, patterns], lambda sp, ch: one(sp, ch[2], ch[0], also=True), split=2)

    sp = c.space("es-isolated-scales", "vigintillón and centillón multiples with every single lower group")

    def run3(sp, ch):
        far, m, (p, v) = ch
        one(sp, m * 10 ** far + v * 10 ** p, "es")
    low = [(0, 0)] + [(p, v) for p in range(0, 84, 6) for v in (1, 2, 21, 100, 1000, 999999)]
    explore_product(sp, [[120, 600], lambda q: [1, 2, 21, 100, 1000, 999999] if q[0] == 120 else [1], low], run3, split=1)
    c.finish()


if __name__ == "__main__":
    main()
