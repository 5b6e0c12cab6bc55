"""Re-executes a violation artefact:  python3 -m mc.replay replays/<file>.json

Prints what the record expected and what the working tree does now; exit 1 if it still differs.
Needs no explorer: the record holds the call, and where it matters the history, the schedule of the threads,
the configuration of the script or the rule source.
"""
import json
import os
import shutil
import signal
import subprocess
import sys

from mc import core


def deep_tuple(x):
    return tuple(deep_tuple(y) for y in x) if isinstance(x, list) else x


def main(path):
    with open(path) as f:
        r = json.load(f)
    signal.signal(signal.SIGALRM, core._on_alarm)
    expected = tuple(r["expected"])
    print("property %s, space %s: %s" % (r["property"], r["space"], r["why"]))
    if r["fn"] in ("regenerate", "extract"):
        return script(r)
    if "threads" in r:
        from mc import fresh, sched
        fresh.install()
        threads = [[deep_tuple(x) for x in t] for t in r["threads"]]
        got, _ = sched.execute(threads, [deep_tuple(s) for s in r["schedule"]], r["grain"], [deep_tuple(x) for x in r["warm"]])
        calls, res = threads[r["thread"]], got[r["thread"]]
        obs = ("exc", "no result")
        for k, x in enumerate(calls):
            if x == (r["fn"], tuple(r["args"])) and k < len(res):
                obs = res[k]
    else:
        core.load_api()
        for h in r.get("history", []):
            if not h[0].startswith("("):
                core.call(h[0], *h[1])
        obs = core.call(r["fn"], *r["args"])
    print("%s%r\n expected %r\n observed %r" % (r["fn"], tuple(r["args"]), expected, obs))
    return 0 if list(map(str, obs)) == list(map(str, expected)) else 1


def script(r):
    from mc import gen
    base = os.path.realpath(gen.scratch_base())
    try:
        work = os.path.join(base, "tree")
        if r["fn"] == "extract":
            rules, over = r["args"]
            gen.make_tree(work, set())
            sections = {}
            for s, k, b in rules:
                sections.setdefault(s, {})[str(k)] = b
            want = r["expected"][1]
            sup = dict({t: {} for t in want if t.isupper() and isinstance(want[t], dict)}, **over)
            sup.update(SKIP_TOKENS=want["SKIP_TOKENS"], USE_LONG_SCALE=want["USE_LONG_SCALE"])
            for d, o in ((gen.RAW, {"rbnf": {"identity": {}, "rbnf": {"SpelloutRules": sections}}}), (gen.SUP, sup)):
                with open(os.path.join(work, d, "xx.json"), "w", encoding="utf8") as f:
                    json.dump(o, f, ensure_ascii=False)
            status, err = gen.run_script(work, base)
            got = {}
            try:
                with open(os.path.join(work, gen.OUT, "xx.py"), encoding="utf8") as f:
                    exec(f.read(), got)
            except Exception as e:
                got = {"info": repr(e)}
            print("rules %r\n supplementary %r\n expected %s\n observed %s (exit status %d %s)" % (
                rules, over, json.dumps(want, ensure_ascii=False), json.dumps(got["info"], ensure_ascii=False), status, err))
            return 0 if json.dumps(got["info"]) == json.dumps(want) else 1
        args = r["args"]
        if r["property"] == "C17":
            name, start, faults = args[0], args[1], args[2:]
            only = {"full": None, "two": {"en.json", "uk.json"}}.get(
                name, {"en.json", "es.json", "uk.json", "root.json", "de.json", "zh.json"})
            gen.make_tree(work, only)
            gen.run_script(work, base, "sorted")
            want = gen.read_tree(work)
            outs = [p for p in want if p.startswith(gen.OUT + "/") and os.path.basename(p) not in ("__init__.py", "root.py")]
            for p in outs:
                if start == "absent":
                    os.remove(os.path.join(work, p))
                elif start == "stale":
                    with open(os.path.join(work, p), "ab") as f:
                        f.write(b"stale = 1\n" * 999)
            shim = os.path.join(base, "shim.so")
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(core.VERIF, "mc", "shim.c"), "-ldl"], check=True)
            order = "sorted"
            for f in faults:
                if f.startswith("rerun:"):
                    order = f[6:]
                    continue
                st = gen.run_script(work, base, "sorted", {"LD_PRELOAD": shim, "MC_ROOT": work, "MC_FAULTS": f})
                print("fault %s: exit status %d; %s" % (f, st[0], "; ".join(gen.diff(want, gen.read_tree(work))[:3]) or "files complete"))
            env, runs, where, argv = {}, 1, None, None
        else:
            from mc.checks import c16
            order, state, env, cwd, runs = args
            only = None
            if str(order).startswith("perm:"):
                print("(a subset of the sources; all of them are used here)")
                order = "sorted"
            gen.make_tree(work, only)
            want = c16.expected_files(work)
            c16.prepare(work, state)
            want = dict(want, **{p: b for p, b in gen.read_tree(work).items() if p not in want})
            where, argv = c16.place(work, base, cwd)
        for _ in range(runs):
            status, err = gen.run_script(work, base, order, env, where, argv)
        bad = gen.diff(want, gen.read_tree(work))
        print("run: exit status %d; %s %s" % (status, "; ".join(bad[:5]) or "files as shipped", err))
        return 1 if status or bad else 0
    finally:
        gen.remove(base)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
