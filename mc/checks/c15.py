"""C15: concurrent calls do not interfere, under every explored interleaving."""
import gc

from mc import core, fresh, sched
from mc import lang as L
from mc.core import Check, call, parallel, same

EN = ("parse", ("one hundred and five foo third", "en"))
EN2 = ("parse", ("twenty two thousand and one", "en"))
ES = ("parse", ("mil y dos, treinta", "es"))
RU = ("parse_number", ("тысяча сорок два", "ru"))
UK = ("parse_number", ("П'ять тисяч сорок", "uk"))
HI = ("parse", ("दो सौ एक लोग", "hi"))
ANY = ("parse", ("once mil y dos, сто",))
ORD = ("parse_ordinal", ("two hundred and first", "en"))
FRA = ("parse_fraction", ("seventy two / twenty five", "en"))
FRA_ES = ("parse_fraction", ("doce mil over treinta y dos", "es"))
FRA_ANY = ("parse_fraction", ("сорок два / сто",))
ORD_RU = ("parse_ordinal", ("сто сорок два", "ru"))
NUM = ("parse_number", ("two hundred and five", "en"))
ANY_EN = ("parse_number", ("two thousand and one",))
BAD = ("parse", ("two", "pl"))
NO = ("parse_number", ("two foo", "en"))
SKIP = ("parse", ("one and two and, third and", "en"))
SKIP_ES = ("parse", ("uno y dos y foo", "es"))

PAIRS = [("en-en", [EN], [EN2]), ("en-es", [EN], [ES]), ("es-ru", [ES], [RU]), ("ru-uk", [RU], [UK]), ("uk-uk", [UK], [UK]),
         ("hi-en", [HI], [EN2]), ("ord-fra", [ORD], [FRA]), ("fra-es", [FRA], [ES]), ("any-en", [ANY], [EN]), ("bad-en", [BAD], [EN]),
         ("fra-fra", [FRA], [FRA_ES]), ("ord-ord", [ORD], [ORD_RU]), ("num-num", [NUM], [RU]), ("any-any", [ANY], [ANY_EN]),
         ("anyfra-fra", [FRA_ANY], [FRA]), ("no-ord", [NO], [ORD]), ("two-calls", [EN, ES], [ES, EN]),
         ("skip-skip", [SKIP], [SKIP_ES]), ("skip-en", [SKIP], [EN2]), ("skip-num", [SKIP_ES], [NUM])]


def main():
    c = Check("C15")
    c.assumptions = ["scheduling points: source lines and instructions of the library's own functions that can touch shared data; "
                     "module bodies run without preemption (the interpreter's import lock covers them)",
                     "preemption bounds as listed per space"]
    import threading
    fresh.install()
    fresh.fresh()
    baseline = {}

    def expected(calls, warm):
        out = []
        for x in calls:
            if x not in baseline:
                fresh.fresh()
                baseline[x] = call(x[0], *x[1])
            out.append(baseline[x])
        return out

    def judge(sp, threads, schedule, grain, warm):
        results, stalls = sched.execute(threads, schedule, grain, warm)
        sp.traces += 1
        sp.transitions += len(schedule)
        sp.calls += sum(len(t) for t in threads)
        sp.outcomes.add(hash(str(results)))
        if stalls:
            sp.data["stalled"] = True
        for t, (calls, got) in enumerate(zip(threads, results)):
            want = expected(calls, warm)
            for k, x in enumerate(calls):
                obs = got[k] if k < len(got) else ("exc", "no result")
                if not same(obs, want[k]):
                    # the library must be intact for the next execution; the schedule is the witness
                    sp.violation(x[0], x[1], want[k], obs, "under a schedule of %d threads" % len(threads),
                                 {"threads": threads, "schedule": schedule, "grain": grain, "warm": list(warm), "thread": t})
                    return
        if len(sp.samples) < 1 and not stalls:
            sp.samples.append({"threads": threads, "schedule": schedule, "grain": grain, "results": [[str(x) for x in r] for r in results]})

    def explore(name, bound, jobs):
        """jobs: (threads, schedule, grain, warm)"""
        sp = c.space(name, bound + ": %d schedules" % len(jobs))
        sp.extra_states = len({tuple(s[:-1]) for _, s, _, _ in jobs})

        def work(sp, chunk):
            for j in chunk:
                judge(sp, *j)
                if sp.violations:
                    return
        n = max(1, len(jobs) // (core.NPROC * 8))
        parallel(sp, work, [jobs[i:i + n] for i in range(0, len(jobs), n)])

    WARM = [EN, ES, RU, UK, HI]

    def one_preemption(pairs, grain, first, last, warm=()):
        jobs = []
        for _, a, b in pairs:
            for x, y in ((a, b), (b, a)):
                log = sched.record([x, y], 0, grain, warm)
                ps = range(len(log)) if first is None else sched.stops(log, first, last)
                jobs += [([x, y], [(0, i), (1, None), (0, None)], grain, warm) for i in ps]
        return jobs

    def two_preemptions(pairs, grain, first, last, warm=()):
        jobs = []
        for _, a, b in pairs:
            for x, y in ((a, b), (b, a)):
                p0 = sched.stops(sched.record([x, y], 0, grain, warm), first, last)
                p1 = sched.stops(sched.record([x, y], 1, grain, warm), first, last)
                jobs += [([x, y], [(0, i), (1, j), (0, None), (1, None)], grain, warm) for i in p0 for j in p1]
        return jobs

    q = c.pick

    def pairs(names):
        by = {p[0]: p for p in PAIRS}
        return [by[n] for n in names.split()]

    explore("1-preemption-lines", "%d pairs of threads, every line (first %s and last passes)" % (len(PAIRS), q("3", "20")),
            one_preemption(PAIRS, "line", q(3, 20), q(1, 5)))
    explore("1-preemption-lines-all", "every pass of every line", one_preemption(pairs(q("en-en", "en-en ord-fra fra-fra no-ord")), "line", None, 0))
    explore("1-preemption-instructions", "every visible instruction (first and last pass)",
            one_preemption(q(pairs("en-es ord-fra ru-uk skip-skip"), PAIRS), "op", q(1, 3), q(0, 1)))
    explore("1-preemption-warm", "after every language has been used", one_preemption(q(pairs("en-es uk-uk fra-fra any-any skip-skip"), PAIRS), "line", q(2, 5), 1, WARM))
    explore("2-preemptions-calls", "every pair of function entries", two_preemptions(q(pairs("en-es uk-uk any-any bad-en"), PAIRS), "call", q(2, 4), 1))
    explore("2-preemptions-lines", "every pair of lines (first pass)",
            two_preemptions(pairs(q("no-ord", "no-ord en-en en-es ru-uk ord-fra fra-fra")), "line", 1, 0))
    # every kind of call against every other
    kinds = [(fn, (t,) if l is None else (t, l)) for fn in core.FUNCS
             for t, l in (("two hundred", "en"), ("foo", "en"), ("mil y dos", "es"), ("third", "en"), ("third", None), ("сто", "ru"), ("п'ять", "uk"),
                          ("foo", None), ("12", None), (" ", None), ("two", "xx"), ("one / two", None), ("dos over foo", "es"), ("दो", "hi"))]
    if not c.thorough:
        kinds = [k for i, k in enumerate(kinds) if i % 14 in (0, 1, 2, 4, 6, 7) or k[0] == "parse_fraction" and i % 14 > 10 or i % 14 == 10 and k[0] == "parse"]
    jobs = []
    for warm in ((), WARM):
        for x in kinds if c.thorough or not warm else kinds[::2]:
            log = sched.record([[x], [x]], 0, "call", warm)
            ps = sched.stops(log, 1, q(0, 1))
            jobs += [([[x], [y]], [(0, i), (1, None), (0, None)], "call", warm) for i in ps for y in (kinds if c.thorough or not warm else kinds[1::2]) if x != y]
    explore("call-matrix", "%d kinds of calls, every ordered pair, every function entry, cold and warm" % len(kinds), jobs)
    some = [(fn, (t,) if l is None else (t, l)) for fn in core.FUNCS for t, l in c.pick((("two hundred", "en"), ("doscientos mil", "es"), ("сорок два", None)),
            (("two hundred", "en"), ("doscientos mil", "es"), ("сорок два", None), ("foo", "uk"), ("twenty first", None), ("दो सौ", "hi")))]
    some = [(fn, (a[0] + " / " + a[0],) + a[1:]) if fn == "parse_fraction" else (fn, a) for fn, a in some]
    matrix = [(None, [x], [y]) for i, x in enumerate(some) for y in some[i:]]
    explore("call-matrix-2", "%d kinds of calls, every pair, every pair of function entries" % len(some), two_preemptions(matrix, "call", 1, q(0, 1)))
    # three threads, nested preemptions
    jobs = []
    triples = [([EN], [ES], [EN2]), ([ES], [RU], [UK]), ([ORD], [FRA], [HI]), ([ANY], [EN], [ES])]
    for a, b, d in triples:
        for x, y, z in ((a, b, d), (b, d, a), (d, a, b)):
            p0 = sched.stops(sched.record([x, y, z], 0, "call"), q(1, 3), 1)
            p1 = sched.stops(sched.record([x, y, z], 1, "call"), q(1, 3), 1)
            for i in p0:
                for j in p1:
                    jobs.append(([x, y, z], [(0, i), (1, j), (2, None), (1, None), (0, None)], "call", ()))
                    if c.thorough:
                        jobs.append(([x, y, z], [(0, i), (1, j), (2, None), (0, None), (1, None)], "call", ()))
    explore("3-threads", "two nested preemptions at function entries", jobs)
    if c.thorough:
        jobs = []
        for _, a, b in PAIRS[:8]:
            p0 = sched.stops(sched.record([a, b], 0, "call"), 1, 0)
            p1 = sched.stops(sched.record([a, b], 1, "call"), 1, 0)
            jobs += [([a, b], [(0, i), (1, j), (0, k), (1, None), (0, None)], "call", ()) for i in p0 for k in p0 if k > i for j in p1]
        explore("3-preemptions-calls", "three preemptions at function entries", jobs)
    c.finish()


if __name__ == "__main__":
    main()
