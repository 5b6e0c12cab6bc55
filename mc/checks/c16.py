"""C16: regenerating the language data reproduces the shipped files."""
import itertools
import json
import os
import re
import shutil

from mc import gen
from mc.core import Check, explore_product

LOCALES = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"},
           {"LC_ALL": "fr_FR.utf8"}, {"LANG": "C", "PYTHONIOENCODING": "ascii", "PYTHONUTF8": "0"},
           {"LC_ALL": "C.utf8", "PYTHONHASHSEED": "7"}, {"PYTHONHASHSEED": "0", "TZ": "Asia/Kolkata"},
           {"PYTHONOPTIMIZE": "2", "PYTHONHASHSEED": "123", "LC_ALL": "tr_TR.UTF-8"}]
ORDERS = ["sorted", "reversed", "rotate:41", "walk:3:f", "walk:17:r"]
CWDS = ["tree", "scripts", "data", "root", "relative", "link", "module", "again", "decoy", "decoy-root"]
STATES = ["shipped", "absent", "empty", "torn", "longer", "other", "mixed", "flip", "crlf", "bom", "old", "future", "value", "binary"]


AGAIN = """import runpy, sys
g = runpy.run_path(sys.argv[1], run_name="__main__")
f = g.get("write_complete_data")
f and f()
"""


def prepare(tree, kind):
    """Puts the target files into the given initial state."""
    d = os.path.join(tree, gen.OUT)
    names = sorted(n for n in os.listdir(d) if n.endswith(".py") and n not in ("__init__.py", "root.py"))  # root is not a language
    blobs = {n: open(os.path.join(d, n), "rb").read() for n in names}
    for i, n in enumerate(names):
        k = kind if kind != "mixed" else STATES[i % 6 + i % 2 * 7]
        p = os.path.join(d, n)
        if k == "absent":
            os.remove(p)
        elif k != "shipped":
            b = blobs[n]
            b = {"empty": b"", "torn": b[:len(b) // 2], "longer": b + b"x = 1\n" * 4000, "other": blobs[names[i - 1]], "flip": b[:len(b) // 3] + b"\0" + b[len(b) // 3 + 1:], "crlf": b.replace(b"\n", b"\r\n"),
                 "bom": b"\xef\xbb\xbf" + b, "old": b[:-2] + b"}", "future": b[:-2] + b"}", "binary": bytes(range(256)) * (len(b) // 256),
                 "value": b.replace(b": 1,", b": 2,").replace(b"False", b"True ")}[k]
            with open(p, "wb") as f:
                f.write(b)
            if k in ("old", "future"):
                os.utime(p, (0, 0) if k == "old" else (4e9, 4e9))
    # another copy of the sources next to the working directory must not be mistaken for the real ones
    gen.make_tree(os.path.join(tree, "decoy"), {"en.json", "uk.json"})
    for n in ("en.json", "uk.json"):
        p = os.path.join(tree, "decoy", gen.SUP, n)
        with open(p, encoding="utf8") as f:
            t = f.read()
        with open(p, "w", encoding="utf8") as f:
            f.write(t.replace(': 1', ': 2'))
    if kind != "shipped":          # files that no source stands for stay as they are
        for n, b in (("xx.py", b"info = {}\n"), ("notes.txt", b"\xff"), ("en.py.bak", b""), ("en_GB.py", b"info = 1\n"), ("root.pyi", b"")):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)


def canonical(text):
    """The bytes that stand for the value a data module defines (comments and the like in the module do not matter)."""
    ns = {}
    exec(compile(text, "data", "exec"), ns)
    body = json.dumps(ns["info"], indent=4, ensure_ascii=False)
    body = re.sub(r"\bfalse\b", "False", body)
    body = re.sub(r"\btrue\b", "True", body)
    return ("info = " + body + "\n").encode("utf8")


def expected_files(tree):
    """{path: bytes} of the tree, the language files as their canonical text."""
    out = gen.read_tree(tree)
    for p in out:
        if p.startswith(gen.OUT + "/") and p.endswith(".py") and os.path.basename(p) not in ("__init__.py", "root.py"):
            try:
                out[p] = canonical(out[p].decode("utf8"))
            except Exception:
                pass                    # stands as it is
    return out


def place(work, base, cwd):
    """How the script is started: (working directory, arguments of the interpreter)."""
    script = os.path.join(work, gen.SCRIPT)
    link = os.path.join(base, "l%d" % os.getpid())
    if cwd == "link":
        if os.path.islink(link):
            os.remove(link)
        os.symlink(work, link)
    where, *args = {
        "tree": (work, script), "scripts": (os.path.dirname(script), os.path.basename(script)),
        "data": (os.path.join(work, gen.OUT), script), "root": ("/", script),
        "relative": (os.path.join(work, "number_parser_data"), "../" + gen.SCRIPT),
        "link": (base, os.path.join(link, gen.SCRIPT)), "module": (work, "-m", gen.SCRIPT[:-3].replace("/", ".")),
        "again": (work, "-c", AGAIN, script), "decoy": (os.path.join(work, "decoy", gen.SCRIPTS), script),
        "decoy-root": (os.path.join(work, "decoy"), script)}[cwd]
    return where, args


def main():
    c = Check("C16")
    c.assumptions = ["directory listings are permuted at os.listdir/os.scandir of the script's own process"]
    base = gen.scratch_base()
    try:
        master = os.path.join(base, "master")
        gen.make_tree(master)
        want = expected_files(master)
        n_sources = len(gen.sources())

        def run(sp, config, argv=None, only=None):
            order, state, env, cwd, runs = config
            work = os.path.join(base, "w%d" % os.getpid())
            if os.path.exists(work):
                shutil.rmtree(work)
            if only is None:
                shutil.copytree(master, work)
                expect = want
            else:
                gen.make_tree(work, only)
                expect = expected_files(work)
            prepare(work, state)
            now = gen.read_tree(work)
            expect = dict(expect, **{p: b for p, b in now.items() if p not in expect})
            where, args = place(work, base, cwd)
            sp.traces += 1
            for r in range(runs):
                status, err = gen.run_script(work, base, order, env, where, args)
                sp.calls += 1
                got = gen.read_tree(work)
                bad = gen.diff(expect, got)
                sp.outcomes.add((status, len(bad)))
                if status != 0 or bad:
                    sp.violation("regenerate", [order, state, env, cwd, r + 1], ("ok", "the shipped files, nothing else changed"),
                                 ("ok", "exit status %d; %s %s" % (status, "; ".join(bad[:3]), err if status else "")),
                                 "regeneration")
                    break
            else:
                if len(sp.samples) < 2:
                    sp.samples.append({"listing": order, "targets": state, "environment": env, "cwd": cwd, "runs": runs,
                                       "files_identical": len(expect)})
            shutil.rmtree(work, ignore_errors=True)

        sp = c.space("configurations", "listing orders x initial targets x environments x working directories")
        confs = [(o, s, e, w, 1) for o in ORDERS for s in STATES for e in LOCALES for w in CWDS]
        if not c.thorough:
            # quick: every pair of two dimensions' values
            confs = [(ORDERS[(i + j) % 5], STATES[i], LOCALES[j], CWDS[(i * 3 + j) % 10], 1) for i in range(len(STATES)) for j in range(8)]
            confs += [(ORDERS[i], STATES[(2 * i + j) % len(STATES)], LOCALES[(i + 3 * j) % 8], CWDS[j], 1) for i in range(5) for j in range(10)]
        explore_product(sp, [confs], lambda sp, ch: run(sp, ch[0]))
        sp = c.space("repeated", "two and three runs in a row, per initial state and environment")
        reps = [(ORDERS[i % 5], s, e, "tree", k) for i, s in enumerate(STATES) for e in LOCALES[:c.pick(2, 8)] for k in (2, 3)]
        reps += [(o, s, e, "again", 1) for o in ORDERS[:2] for s in STATES for e in LOCALES[:c.pick(1, 8)]]
        explore_product(sp, [reps], lambda sp, ch: run(sp, ch[0]))

        m = n_sources + n_sources % 2
        sp = c.space("every-succession", "listing walks in which every file directly follows every other file (%d sources)" % n_sources)
        walks = ["walk:%d:%s" % (k, d) for k in range(m // 2) for d in "fr"]
        explore_product(sp, [walks], lambda sp, ch: run(sp, (ch[0], "absent", {}, "tree", 1)))
        sp.transitions += sum(1 for _ in walks) * (n_sources - 1)

        sp = c.space("permutations", "every listing order of a few sources")
        few = [["en.json", "es.json", "hi.json", "root.json"], ["uk.json", "ru.json", "es-419.json", "es.json"]]
        if c.thorough:
            few = [f + x for f, x in zip(few, (["de.json"], ["fr.json"]))]
            few = [f for f in few] + [["en.json", "sv.json", "root.json", "es-419.json", "uk.json"]]
        few = [[n for n in f if n in gen.sources()] for f in few]
        perms = [(tuple(f), ",".join(map(str, p))) for f in few for p in itertools.permutations(range(len(f)))]
        explore_product(sp, [perms], lambda sp, ch: run(sp, ("perm:" + ch[0][1], "mixed", LOCALES[1], "tree", 1), only=set(ch[0][0])))

        if c.thorough:
            sp = c.space("rotations", "every source listed first, over mixed targets")
            explore_product(sp, [range(n_sources)], lambda sp, ch: run(sp, ("rotate:%d" % ch[0], "mixed", {}, "tree", 1)))
    finally:
        gen.remove(base)
    c.finish()


if __name__ == "__main__":
    main()
