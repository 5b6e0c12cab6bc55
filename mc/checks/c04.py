"""C04: runs of number words split into maximal numbers, nothing lost."""
from mc import lang as L
from mc.alpha import RUN, CONN
from mc.core import Check, explore_tree, explore_bfs


def toks(words, lang):
    out = []
    for w in words:
        if out:
            out.append(L.ws_tok())
        out.append(L.conn_tok(w) if w in L.SKIP[lang] else L.num_tok(w, lang))
    return out


def main():
    c = Check("C04")
    c.assumptions = ["the reference numeral machine of mc/lang.py says which word continues a number",
                     "connectors before the first number word are ordinary words"]

    class Run:
        """Sentence machine over a run of words separated by single spaces."""
        @staticmethod
        def init(lang):
            return L.Sentence(L.LONG[lang])

        @staticmethod
        def succ(lang, words, first):
            alphabet = [(w, L.conn_tok(w) if w in L.SKIP[lang] else L.num_tok(w, lang)) for w in words]
            sp = L.ws_tok()

            def f(st):
                pre = st if st.out == "" and st.num is None and not st.pend else st.step(sp)
                return [(w, pre.step(t)) for w, t in alphabet]
            return f

    def check(lang):
        def g(sp, labels, st):
            if not labels:
                return
            s = " ".join(labels)
            sp.traces += 1
            sp.expect("parse", (s, lang), ("ok", st.result()), "run of number words", "run of number words")
        return g

    # 1. every sequence over a large alphabet, to a moderate depth
    wide = {"en": (14, c.pick(4, 5)), "es": (15, c.pick(4, 5)), "hi": (12, c.pick(4, 5)),
            "ru": (13, c.pick(4, 5)), "uk": (13, c.pick(4, 5))}
    for lang in L.LANGS:
        n, d = wide[lang]
        words = CONN[lang] + RUN[lang]
        words = words[:n]
        sp = c.space("wide-" + lang, "all sequences of <= %d of %d words" % (d, len(words)))
        explore_tree(sp, Run.init(lang), Run.succ(lang, words, None), check(lang), d)

    # 2. few words, deep
    for lang in L.LANGS:
        words = CONN[lang][:1] + RUN[lang][:5]
        d = c.pick(6, 8)
        sp = c.space("deep-" + lang, "all sequences of <= %d of %d words" % (d, len(words)))
        explore_tree(sp, Run.init(lang), Run.succ(lang, words, None), check(lang), d)

    # 3. graph of control states: values are abstracted to what any later word can tell apart
    #    (category of the last word, which scale words are larger than the group / the value).
    #    Every word is replayed out of every reachable control state, after a shortest trace.
    for lang in L.LANGS:
        seen, words = set(), CONN[lang] + RUN[lang]
        for w in words:
            seen.add(L.VOCAB[lang].get(w))
        for w, cv in L.VOCAB[lang].items():
            if cv[0] == "scale" and cv not in seen and (c.thorough or cv[1] < 10 ** 28):
                seen.add(cv)
                words = words + [w]
        sizes = sorted({v for k, v in L.VOCAB[lang].values() if k == "scale"})

        def control(s):
            n = s.num
            if n is None:
                return (None, s.out == "")
            return (n.last, n.done == 0, n.scale, sum(v < n.group for v in sizes), n.group == 0,
                    sum(v <= n.value for v in sizes), n.value == 0, tuple(L.conns(s.pend)[-2:]))
        sp = c.space("control-graph-" + lang, "every word out of every control state, %d words;" % len(words))
        explore_bfs(sp, Run.init(lang), Run.succ(lang, words, None), control, check(lang),
                    max_states=c.pick(6000, 60000))

    # 3b. the same on concrete values
    for lang in L.LANGS:
        words = CONN[lang] + RUN[lang]
        sp = c.space("value-graph-" + lang, "transitions out of every reached concrete state, %d words;" % len(words))
        explore_bfs(sp, Run.init(lang), Run.succ(lang, words, None), lambda s: (s.key(), s.out == ""), check(lang),
                    max_depth=c.pick(5, 7), max_states=c.pick(2000, 80000))

    # 4. every pair and triple around every vocabulary word with scale words
    for lang in L.LANGS:
        allw = list(L.VOCAB[lang])
        scales = [w for w in allw if L.VOCAB[lang][w][0] == "scale"]
        one_each = []
        seen = set()
        for w in scales:
            v = L.VOCAB[lang][w]
            if v not in seen:
                seen.add(v)
                one_each.append(w)
        small = RUN[lang][:2]
        sp = c.space("scales-" + lang, "small x scale x small x scale (x small x scale), one word per scale value")
        cap = c.pick(14, 26)
        picked = one_each if len(one_each) <= cap else one_each[:cap - 4] + one_each[-4:]

        def succ(st, lang=lang, picked=picked, small=small):
            return []
        from mc.core import explore_product

        def run(sp, ch, lang=lang):
            sp.expect("parse", (" ".join(w for w in ch if w), lang),
                      ("ok", L.ref_parse(toks([w for w in ch if w], lang), lang)), "scale words in every order", "scales")
        opt = small[:1] + [""]
        last = picked if c.thorough or len(picked) < 10 else picked[::3]
        explore_product(sp, [opt, picked, opt, picked, opt, last], run, split=2)

    # 5. long runs: a short pattern repeated, every number of repetitions, framed by other words
    from mc import pump
    sp = c.space("long-runs", "patterns of number words repeated 1..%d times (and up to %d)" % (c.pick(40, 130), c.pick(300, 3000)))

    def long_run(sp, ch):
        lang, unit, n = ch
        r = RUN[lang]
        for words in pump.patterns(lang, n, unit, [(r[0],), (r[4], r[2])] + [(k,) for k in CONN[lang][:1]] if n <= 40 else [(r[0],)]):
            t = pump.toks(words, lang)
            sp.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "long run of number words", "long run")
    explore_product(sp, [L.LANGS, lambda p: pump.number_units(p[0]), pump.lengths(c.pick(40, 130), c.pick((64, 100, 300), (300, 1000, 3000)))],
                    long_run, split=2)
    # runs in which all the numbers differ
    sp = c.space("distinct-numbers", "sequences of up to %d different numbers" % c.pick(60, 300))

    def distinct(sp, ch):
        lang, step, n = ch
        t = []
        for i in range(n):
            if t:
                t.append(L.ws_tok())
            t += pump.toks(L.spell(200 + (i * step) % 700 if lang != "hi" else 1 + i % 99, lang).split(), lang)
        sp.expect("parse", (L.text_of(t), lang), ("ok", L.ref_parse(t, lang)), "different numbers in a row", "distinct numbers")
    explore_product(sp, [L.LANGS, [1, 101, 37], pump.lengths(c.pick(30, 100), c.pick((60,), (300,)))], distinct, split=2)
    c.finish()


if __name__ == "__main__":
    main()
