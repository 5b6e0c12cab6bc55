"""C17: an interrupted regeneration is repaired by running it again.

Every file-changing system call of a run of the real script is a crash point; each one is cut off before or
after, torn, or made to fail, by a preloaded library; then the script is run again.
"""
import os
import shutil
import subprocess

from mc import core, gen
from mc.core import Check, explore_product

CRASH = ["before", "after", "torn0", "torn1", "tornh", "tornl", "tornm", "sigterm", "sigint"]
ERROR = ["enospc", "eio", "eacces", "full", "shortfail"]
LEGAL = ["short", "intr"]          # a correct program completes, or says that it did not


def modes_for(kind):
    if kind == "write":
        return CRASH + ERROR + LEGAL
    if kind == "close":
        return ["before", "after", "eio", "enospc", "sigint"]
    return ["before", "after", "enospc", "eacces", "full", "sigint", "intr"]


def main():
    c = Check("C17", level="fault_enumeration")
    c.assumptions = ["one process writes at a time; a crash keeps exactly the bytes handed to the kernel before it",
                     "files other than .py and .json that a crash may leave behind (temporary files) are not judged"]
    base = os.path.realpath(gen.scratch_base())
    try:
        shim = os.path.join(base, "shim.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(core.VERIF, "mc", "shim.c"), "-ldl"], check=True)
        some = {"en.json", "es.json", "uk.json", "root.json", "de.json", "zh.json"}
        some = {n for n in some if n in gen.sources()}
        two = {"en.json", "uk.json"} & set(gen.sources())
        trees = {}
        for name, only in (("full", None), ("some", some), ("two", two)):
            m = os.path.join(base, name)
            gen.make_tree(m, only)
            status, err = gen.run_script(m, base, "sorted")     # the undisturbed run
            if status != 0:
                print("C17: the script fails without any fault: exit status %d %s" % (status, err))
                os._exit(2)
            trees[name] = (m, gen.read_tree(m))

        def judged(tree):
            return {p: b for p, b in tree.items() if p.startswith((gen.RAW, gen.SUP)) or p.endswith((".py", ".json"))}

        def generated(p):
            return p.startswith(gen.OUT + "/") and os.path.basename(p) not in ("__init__.py", "root.py")

        def prepare(name, start):
            work = os.path.join(base, "w%d" % os.getpid())
            if os.path.exists(work):
                shutil.rmtree(work)
            shutil.copytree(trees[name][0], work)
            if start != "shipped":
                for p in trees[name][1]:
                    if generated(p):
                        if start == "absent":
                            os.remove(os.path.join(work, p))
                        else:
                            with open(os.path.join(work, p), "ab") as f:
                                f.write(b"stale = 1\n" * 999)
            return work

        def faulted(work, fault, log=None):
            env = {"LD_PRELOAD": shim, "MC_ROOT": work}
            if fault:
                env["MC_FAULTS"] = fault
            if log:
                env["MC_LOG"] = log
            return gen.run_script(work, base, "sorted", env)

        # the undisturbed run of each tree: its operations are the crash points
        ops, sizes = {}, {}
        for name in trees:
            for start in ("shipped", "absent", "stale"):
                work, log = prepare(name, start), os.path.join(base, "log-%s-%s" % (name, start))
                status, err = faulted(work, None, log)
                assert status == 0, err
                lines = [x.split() for x in open(log).read().splitlines()] if os.path.exists(log) else []
                ops[name, start] = [x[1] for x in lines]
                sizes[name, start] = [int(x[2]) for x in lines]
                shutil.rmtree(work)
        if not ops["two", "absent"] or not ops["two", "stale"]:
            print("C17: the fault injector saw no file operation")
            os._exit(2)

        def say(sp, args, why, got):
            sp.violation("regenerate", args, ("ok", why), ("ok", got), "interrupted regeneration")

        def check_after_fault(sp, name, work, args, first=True):
            """Nothing but generated files may differ."""
            want = {p: b for p, b in judged(trees[name][1]).items() if not generated(p)}
            got = {p: b for p, b in judged(gen.read_tree(work)).items() if not generated(p)}
            bad = gen.diff(want, got)
            if bad:
                say(sp, args, "only generated files are touched", "; ".join(bad[:3]))
                return False
            return True

        def scenario(sp, name, start, faults, again="sorted"):
            args = [name, start] + list(faults) + ([] if again == "sorted" else ["rerun:" + again])
            work = prepare(name, start)
            want = judged(trees[name][1])
            try:
                for f in faults:
                    status, err = faulted(work, f)
                    sp.calls += 1
                    mode = f.split(":")[1]
                    tree = gen.read_tree(work)
                    sp.state_keys.add(core.h64(sorted(tree.items())))
                    sp.outcomes.add((status, mode))
                    if not check_after_fault(sp, name, work, args):
                        return
                    complete = not gen.diff(want, judged(tree))
                    if status == 0 and mode != "sigint" and not complete:
                        return say(sp, args, "a failed write is not reported as success",
                                   "exit status 0 after %s, files %s" % (mode, "complete" if complete else "incomplete"))
                    sp.data[core.h64((status, sorted(tree.items()), mode))] = not complete or status != 0
                status, err = gen.run_script(work, base, again)
                sp.calls += 1
                bad = gen.diff(want, judged(gen.read_tree(work)))
                if status != 0 or bad:
                    return say(sp, args, "the rerun completes with the files of an undisturbed run",
                               "exit status %d; %s %s" % (status, "; ".join(bad[:3]), err if status else ""))
                if len(sp.samples) < 2:
                    sp.samples.append({"tree": name, "targets before": start, "faults": list(faults), "after rerun": "identical"})
            finally:
                shutil.rmtree(work, ignore_errors=True)

        def space(name, bound, jobs):
            sp = c.space(name, bound)
            explore_product(sp, [jobs], lambda sp, ch: scenario(sp, *ch[0]))

        def jobs(name, start, pick=None):
            return [(name, start, ("%d:%s" % (k, m),)) for k, kind in enumerate(ops[name, start])
                    for m in modes_for(kind) if pick is None or m in pick]
        def orders(js, *names):
            return [j + (o,) for j in js for o in names]
        space("every-operation", "some languages: every operation x every fault, from shipped, absent and stale targets; the rerun lists in several orders",
              orders(jobs("some", "shipped") + jobs("some", "absent"), "sorted", "reversed", "rotate:2") +
              jobs("some", "stale", None if c.thorough else ("before", "tornh", "full")))
        space("every-file", "all languages: every operation x faults",
              orders(jobs("full", "shipped", None if c.thorough else ("tornh", "enospc", "full")), *c.pick(("sorted",), ("sorted", "walk:5:f"))) +
              orders(jobs("full", "absent", ("tornl", "after")), "reversed") +
              (jobs("full", "absent", ("before", "tornh")) if c.thorough else []))
        # every byte position of a write (a stop there leaves exactly the bytes before it)
        step = c.pick(7, 1)
        cuts = [("two", start, ("%d:torn@%d" % (k, n),), o) for start in c.pick(("stale",), ("absent", "stale")) for k, kind in enumerate(ops["two", start])
                if kind == "write" for n in range(0, sizes["two", start][k] + 1, step) for o in ("sorted",)]
        space("every-byte", "two languages: every write cut off at every %s byte" % ("%dth" % step if step > 1 else "single"), cuts)
        pairs = []
        for k1, a in enumerate(ops["two", "absent"]):
            for k2, b in enumerate(ops["two", "stale"]):
                for m1 in (modes_for(a) if c.thorough else ("before", "tornh") if a == "write" else ("after",)):
                    for m2 in (modes_for(b) if c.thorough else ("torn1", "after", "enospc") if b == "write" else ("before", "eio")):
                        pairs.append(("two", "absent", ("%d:%s" % (k1, m1), "%d:%s" % (k2, m2))))
        space("two-faults", "two interrupted runs, then a complete one", pairs)
        if c.thorough:
            triple = [("two", "absent", ("%d:tornh" % i, "%d:torn1" % j, "%d:after" % k))
                      for i in range(len(ops["two", "absent"])) for j in range(len(ops["two", "stale"]))
                      for k in range(len(ops["two", "stale"]))]
            space("three-faults", "three interrupted runs, then a complete one", triple)
        runs = sum(s.calls for s in c.spaces)
        c.extra = {"evaluations": runs,
                   "distinct_nontrivial": sum(sum(1 for v in s.data.values() if v) for s in c.spaces),
                   "rule": "a run of the real script with a fault at one file-changing system call (operation number x fault kind), then "
                           "reruns; non-trivial: the fault left files incomplete or made the run fail; distinct by disk contents, exit "
                           "status and fault kind",
                   "operations_of_a_full_run": len(ops["full", "absent"])}
    finally:
        gen.remove(base)
    c.finish()


if __name__ == "__main__":
    main()
