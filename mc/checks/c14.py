"""C14: results do not depend on earlier calls.

Every history starts from a freshly loaded library.  The expected outcome of a call is what it returns
as the first call of its own fresh process.
"""
import multiprocessing
import time

from mc import core, fresh
from mc import lang as L
from mc.alpha import CONN, RUN
from mc.core import Check, FUNCS, call, explore_product, parallel, same

TEXTS = ["once mil y dos, сто", "one hundred and five foo", "тысяча сорок два", "एक सौ", "twenty first / two", "П'ять чотири",
         "cien y tres", "two thousand thousand", "12", "", "seventh",
         # own number words among the connectors, numbers and ordinals of all the others
         "two y three and dos - сто fifth пять एक one", "dos y tres and two - once сто y fifth mil", "दो y सौ and dos - दो third एक",
         "сто y два and пять - три second dos один", "сто y два and п'ять - три second dos один"]
CODES = list(L.LANGS) + [None, "pl", "xx"]
MISUSE = [("parse", (5, "en")), ("parse_number", (None,)), ("parse_fraction", (b"1/2", "es")), ("parse_ordinal", ("two", 3)),
          ("parse", (None, "ru"))]


def args_of(text, lang):
    return (text,) if lang is None else (text, lang)


def ask(fn, *args):
    """A call with texts of its own, gone after the call as a caller's texts are (their addresses may be used again)."""
    return call(fn, *("".join(list(a)) if isinstance(a, str) else a for a in args))


ALL = [(fn, args_of(t, l)) for t in TEXTS for fn in FUNCS for l in CODES]


def _first(c):
    core._api = None
    core.load_api()
    import signal
    signal.signal(signal.SIGALRM, core._on_alarm)
    return call(c[0], *c[1])


def outcomes_in_fresh_processes(calls):
    """Must run before the library is loaded in this process."""
    assert core._api is None
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(core.NPROC, maxtasksperchild=1) as pool:
        return dict(zip(calls, pool.map(_first, calls, chunksize=1)))


def main():
    c = Check("C14")
    c.assumptions = ["state kept outside the library's modules is seen only through its effect on results",
                     "calls with arguments that are not text may be part of a history; their own outcome is not judged"]
    extra_texts = [L.spell(n, l) for l in L.LANGS for n in (7, 21, 300, 2045)]
    calls = ALL + [(fn, args_of(t, l)) for t in extra_texts for fn in ("parse", "parse_number")
                   for l in ("en", "es", "hi", "ru", "uk", None)]
    # families of texts that agree in something a shortcut might take for the whole text
    families = []
    for lang in L.LANGS:
        r = RUN[lang]
        long = " ".join([r[0], "foo"] * 20)
        fam = [long + " " + r[1], long + " " + r[2], r[1] + " " + long, r[2] + " " + long,           # same start, same end, same length
               " ".join([r[1], r[3], r[0]]), " ".join([r[0], r[3], r[1]]), " ".join([r[0], r[1], r[3]]),  # same words
               r[0] + " " + r[0], r[0], r[0].upper(), r[0] + ".", " " + r[0], r[0] + " foo", r[0] + " Foo", r[0] + "foo",
               r[0] + "\u0301", r[0] + "  " + r[1], r[0] + " " + r[1], r[0] + "\n" + r[1], r[0] + ", " + r[1], r[0] + " " + r[1] + " foo",
               " ".join([r[0]] * 9), " ".join([r[0]] * 10), " ".join([r[0], r[1]] * 6), "foo " * 30 + r[0], "foo " * 30 + r[1],
               r[0] + " / " + r[1], r[1] + " / " + r[0], r[0] + " over " + r[1], r[0] + "/" + r[1] + " foo"]
        story = {"en": "Café %s naïve Façades, %s façades", "es": "Mañana COMPRÉ %s libros, %s Después", "hi": "लड़कों ने %s आम और %s क़लम",
                 "ru": "Ёлки и %s Ещё, %s ёжиков", "uk": "Їжаки й %s Об'єкти, %s їжаків"}[lang] % (r[0], r[4])
        fam += [story, (story + " ") * 2, (story + " ") * 6, ((story + ". ") * 30).strip()]
        families.append((lang, fam))
    anyl = []
    for k in c.pick((8, 40), (8, 20, 40, 150)):
        for w in ("two", "dos", "दो", "пять", "чотири", "once", "сто", "cien", "foo"):
            anyl += ["x" * (k - len(w)) + " " + w, w + " " + "x" * (k - len(w)), "x" * (k - len(w)) + " " + w + " " + "y" * k,
                     "foo " * (k // 4) + w + " " * (8 - len(w)) + "!"]
        anyl += ["two dos " * k, "dos two " * k, "dos two " * k + "dos", "two dos " * k + "two"]
    for size in c.pick((9,), (9, 12, 64)):  # the same length and the same sum of characters
        for w in ("two", "dos", "दो", "пять", "чотири", "once", "сто", "cien", "foo"):
            t = w + " " + "x" * (size - 2 - len(w))
            anyl.append(t + chr(0x7000 - sum(map(ord, t))))
    families.append((None, anyl))
    family_calls = [[(fn, args_of(t, l)) for t in fam for fn in FUNCS for l in (((lang, None) if fn != "parse_fraction" else (lang,)) if lang else (None, "en", "es"))]
                    for lang, fam in families]
    ordinary = list(dict.fromkeys(calls))
    calls = list(dict.fromkeys(calls + [x for f in family_calls for x in f]))
    base = outcomes_in_fresh_processes(calls)
    fresh.install()

    def judge(sp, history, last):
        obs = ask(last[0], *last[1])
        sp.calls += 1
        if len(sp.outcomes) < 5000:
            sp.outcomes.add(hash((last, str(obs))))
        if not same(obs, base[last]):
            sp.violation(last[0], last[1], base[last], obs, "after the calls %r" % (list(history)[-12:],),
                         {"history": [[h[0], list(h[1])] for h in history][-400:]})
            return False
        return True

    pristine = fresh.pristine_strings()
    plain = {}

    def learned_words(sp, note, limit):
        """Texts the library has come to keep become words of further calls."""
        new = sorted(w for w in fresh.strings() - pristine if w.strip() and len(w) < 60)
        probes = []
        for w in new[:limit // 2] + new[limit // 2:][-(limit // 2):]:
            for lang in L.LANGS:
                r = RUN[lang]
                probes += [("parse", (r[1] + " " + w + " " + r[0], lang)), ("parse_number", (r[1] + " " + w, lang)), ("parse_ordinal", (w, lang))]
            probes.append(("parse", (w + " " + w + " two dos",)))
        obs = [ask(p[0], *p[1]) for p in probes]
        if probes:
            fresh.fresh()
        for p, o in zip(probes, obs):
            sp.calls += 1
            if p not in plain:
                fresh.fresh()
                plain[p] = call(p[0], *p[1])
            if not same(o, plain[p]):
                sp.violation(p[0], p[1], plain[p], o, "after the calls %r" % (note[-12:],), {"history": [[h[0], list(h[1])] for h in note][-400:]})
                return

    def replay(history):
        fresh.fresh()
        for h in history:
            ask(h[0], *h[1])

    # 1. the graph of module-level states, to closure
    sp = c.space("state-graph", "every call out of every reachable module-level state;")
    alphabet = ALL + MISUSE
    replay(())
    start = fresh.snapshot()
    seen, level, depth = {start: ()}, [()], 0
    cap, t0, budget = c.pick(60, 600), time.time(), c.pick(60, 600)
    sample = [alphabet[i:i + 30] for i in range(0, len(alphabet), 30)]
    while level and len(seen) <= cap and time.time() - t0 < budget:
        step = c.space("state-graph-level-%d" % depth, "%d states x %d calls" % (len(level), len(alphabet)))

        def work(s, job):
            hist, part = job
            for x in part:
                replay(hist)
                s.calls += len(hist)
                s.transitions += 1
                s.traces += 1
                if x in base:
                    judge(s, hist, x)
                else:
                    call(x[0], *x[1])
                k = fresh.snapshot()
                if k not in s.data and k not in seen:
                    learned_words(s, hist + (x,), 6)
                s.data.setdefault(k, hist + (x,))
        parallel(step, work, [(h, p) for h in level for p in sample])
        new = [(k, h) for k, h in sorted(step.data.items(), key=lambda kv: (len(kv[1]), repr(kv[1]))) if k not in seen]
        step.extra_states = len(new) + (1 if depth == 0 else 0)
        step.data = {}
        for k, h in new:
            seen[k] = h
        level = [h for _, h in new][:c.pick(40, 200)]
        depth += 1
    if level:
        sp.bound += " stopped at depth %d with %d states (no fixed point within the bound)" % (depth, len(seen))
        sp.exhaustive = False
    else:
        sp.bound += " fixed point at depth %d: %d states, so every history over these calls is covered" % (depth, len(seen))

    # 2. all histories of a few calls, each from a fresh load
    few = [("parse", ("once mil y dos, сто", "es")), ("parse", ("once mil y dos, сто", "en")), ("parse", ("once mil y dos, сто",)),
           ("parse_number", ("тысяча сорок два", "ru")), ("parse_number", ("тысяча сорок два", "uk")),
           ("parse_ordinal", ("seventh", "en")), ("parse_ordinal", ("seventh", "es")), ("parse_fraction", ("twenty first / two", "en")),
           ("parse", ("П'ять чотири", "uk")), ("parse", ("П'ять чотири", "en")), ("parse_number", ("एक सौ", "hi")),
           ("parse_number", ("एक सौ", "pl")), ("parse_number", ("cien y tres", "es")), ("parse_number", ("cien y tres", "en")),
           ("parse_number", ("12",)), ("parse", (5, "en")), ("parse", ("two thousand thousand", "en"))]
    sp = c.space("histories", "all histories of <= %d calls out of %d" % (c.pick(3, 4), len(few)))

    def run(sp, ch):
        hist = tuple(x for x in ch if x is not None)
        if not hist or hist[-1] not in base:
            return
        replay(hist[:-1])
        judge(sp, hist[:-1], hist[-1])
        # and once more: repeating a call changes nothing either
        judge(sp, hist, hist[-1])
    explore_product(sp, [[None] + few] + [few] * (c.pick(3, 4) - 1), run, split=2)

    # 3. every ordered pair of calls, from a fresh load and in one long history
    sp = c.space("pairs-fresh", "every ordered pair of calls, each from a fresh load")
    some = ordinary if c.thorough else [x for i, x in enumerate(ordinary) if i % 4 == 0 or x in few]

    def run2(sp, ch):
        replay(ch[:1])
        judge(sp, ch[:1], ch[1])
    explore_product(sp, [[x for x in some] + MISUSE, some], run2)
    sp = c.space("pairs-long", "every ordered pair of calls, consecutive in long histories")
    some3 = ordinary if c.thorough else ordinary[::2]

    def run3(sp, ch):
        x, = ch
        fresh.fresh()
        hist = []
        for y in some3:
            for z in (x, y):
                if not judge(sp, hist, z):
                    return
                hist.append(z)
    explore_product(sp, [some3], run3)

    # 3a. every language used, in every order, then the words that the library keeps from then on
    sp = c.space("language-orders", "every order of first uses of the five languages, then every call again and the words kept since")
    import itertools

    def run7(sp, ch):
        order, = ch
        hist = [("parse", (RUN[l][0] + " foo", l)) for l in order]
        replay(hist)
        for x in [x for x in few if x in base] + [("parse", (t, l)) for t in TEXTS[:3] for l in L.LANGS]:
            judge(sp, hist, x)
        replay(hist)
        learned_words(sp, hist, 20)
    orders = [o for k in range(1, 6) for o in itertools.permutations(L.LANGS, k)]
    explore_product(sp, [orders], run7)

    # 3b. texts that collide under plausible keys
    sp = c.space("families", "texts with the same beginning, end, length, words, letters: every ordered pair, from a fresh load")

    def related(x, y):
        if x == y:
            return False
        if x[0] == y[0] and x[1][1:] == y[1][1:]:
            return c.thorough or x[0] == "parse"
        return x[1][0] == y[1][0]

    def run5(sp, ch):
        x = ch[1]
        for y in family_calls[ch[0]]:
            if related(x, y):
                sp.transitions += 1
                sp.traces += 1
                replay((x,))
                judge(sp, (x,), y)
    explore_product(sp, [range(len(family_calls)), lambda p: family_calls[p[0]]], run5, split=2)
    sp = c.space("families-long", "the same in one long history per call: every ordered pair consecutive, and all of them twice")

    def run6(sp, ch):
        fam = family_calls[ch[0]]
        x = ch[1]
        fresh.fresh()
        hist = []
        for y in fam:
            for z in (x, y):
                if not judge(sp, hist, z):
                    return
                hist.append(z)
    explore_product(sp, [range(len(family_calls)), lambda p: family_calls[p[0]][::c.pick(41, 3)]], run6, split=2)

    # 4. pumped histories: long repetition, then every call again
    sp = c.space("pumped", "up to thousands of repeated or distinct calls, then every call again")

    def pump(kind, lang, n):
        """(call, its outcome if known)"""
        m = lang or "en"
        big = L.spell(int(("317" * 40)[:min(L.MAX_POWER[m], 30)]), m)
        value = int(("317" * 40)[:min(L.MAX_POWER[m], 30)])
        tail = (" " + CONN[m][0]) * 20 if CONN[m] else ""
        for i in range(n):
            if kind == "same":
                yield ("parse", args_of("two hundred and foo", lang)), None
            elif kind == "distinct":
                yield ("parse_number", args_of(L.spell(i, m), lang)), i if lang else None
            elif kind == "sentence":
                yield ("parse", args_of("foo %s bar%d" % (L.spell(i % 999, m), i), lang)), "foo %d bar%d" % (i % 999, i) if lang else None
            elif kind == "fraction":
                yield ("parse_fraction", args_of("%d over %d" % (i, i), lang)), "%d/%d" % (i, i)
            elif kind == "fraction-left":
                yield ("parse_fraction", args_of("%s/%s" % (RUN[m][0], L.spell(i, m)), lang)), "%d/%d" % (L.VOCAB[m][RUN[m][0]][1], i) if lang else None
            elif kind == "fraction-right":
                yield ("parse_fraction", args_of("%s over %s" % (L.spell(i, m), RUN[m][4]), lang)), "%d/%d" % (i, L.VOCAB[m][RUN[m][4]][1]) if lang else None
            elif kind == "ordinal":
                yield ("parse_ordinal", args_of(" ".join(L.en_ordinal_words(i + 1)), lang)), i + 1 if lang == "en" else None
            elif kind == "runs":
                yield ("parse", args_of(" ".join([RUN[m][0]] * (i % 40 + 1)), lang)), None
            elif kind == "long-numbers":
                if i % 3 == 0:
                    yield ("parse_number", args_of(big + tail, lang)), value if lang else None
                elif i % 3 == 1:
                    yield ("parse_ordinal", args_of(big + tail, lang)), value if lang else None
                else:
                    yield ("parse", args_of(big + " foo", lang)), "%d foo" % value if lang else None
            elif kind == "mixed":
                yield ordinary[(i * 31) % len(ordinary)], None
            elif kind == "languages":
                yield ("parse", args_of(RUN[L.LANGS[i % 5]][i % 7] + " foo%d" % i, lang)), None
            elif kind == "refused":
                yield (("parse", "parse_number", "parse_ordinal")[i % 3], ("two", "x%d" % i)), None
            else:
                yield ("parse", args_of("x " * (i % 50) + "two", lang)), None

    def run4(sp, ch):
        kind, lang, n = ch
        if kind == "long-numbers" and not c.thorough:
            n = min(n, 800)
        fresh.fresh()
        note = [("(pumped: %s)" % kind, (lang, n))]
        for h, want in pump(kind, lang, n):
            obs = ask(h[0], *h[1])
            sp.calls += 1
            if want is not None and not same(obs, ("ok", want)) or h in base and not same(obs, base[h]):
                sp.violation(h[0], h[1], ("ok", want) if want is not None else base[h], obs, "in a long history of such calls", {"pumped": [kind, lang, n]})
                return
        for x in ordinary if not c.thorough else calls:
            judge(sp, note, x)
        learned_words(sp, note, c.pick(12, 60))
    kinds = ["same", "distinct", "sentence", "fraction", "fraction-left", "fraction-right", "long-numbers", "ordinal", "refused", "long", "runs", "mixed", "languages"]
    explore_product(sp, [kinds, list(L.LANGS) + [None], c.pick([130, 1100, 4200], [130, 1100, 5000, 20000])], run4, split=2)
    c.finish()


if __name__ == "__main__":
    main()
