#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from tools/seeds_*.py and validates them in scratch copies.

  plant.py list | plant.py try [--checks] [id ...]
`try`: makes a scratch copy of /repo, applies the edits, checks that it builds, that the stable tests pass, that the demo
discriminates, that original lines change; writes the directory if so.  --checks also runs the quick check of the
property on the scratch copy (NP_REPO) and reports whether it is caught.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
DEMO_SH = '''#!/bin/sh
# exit 0: the behaviour is right; anything else: it is broken.  Run with the tree under test as working directory.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec python3 "$here/demo.py"
'''
P = "number_parser/parser.py"
S = "number_parser_scripts/write_complete_language_data.py"


def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds_*.py"))):
        spec = importlib.util.spec_from_file_location("seeds", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    return seeds


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def tests(tree):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules",
                  "number_parser", "tests", "README.rst"], tree, {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/opt/vp/no-pycache",
                                                                  "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONPATH": tree})
    return rc == 0, out[-600:]


def demo(tree, d):
    return sh(["sh", os.path.join(d, "demo.sh")], tree, timeout=300)


def main():
    args = sys.argv[2:]
    checks = "--checks" in args
    extra = [a[2:] for a in args if a.startswith("--C")]
    ids = [a for a in args if not a.startswith("--")]
    seeds = [s for s in load() if not ids or any(s["id"] == i or (i.endswith("*") and s["id"].startswith(i[:-1])) for i in ids)]
    if sys.argv[1] == "list":
        for s in seeds:
            print(s["id"], s["property"])
        return
    for s in seeds:
        base = tempfile.mkdtemp(prefix="np-seed-")
        try:
            tree, clean, d = base + "/tree", base + "/clean", base + "/d"
            shutil.copytree(REPO, tree, symlinks=True)
            os.makedirs(d)
            with open(d + "/demo.sh", "w") as f:
                f.write(DEMO_SH)
            with open(d + "/demo.py", "w", encoding="utf8") as f:
                f.write(textwrap.dedent(s["demo"]).lstrip("\n"))
            bad = None
            mine = {}
            for fn, old, new in s["edits"]:
                p = os.path.join(tree, fn)
                t = open(p, encoding="utf8", newline="").read()
                if t.count(old) != 1:
                    bad = "edit matches %d times: %r" % (t.count(old), old[:60])
                    break
                open(p, "w", encoding="utf8", newline="").write(t.replace(old, new))
            if bad:
                print(s["id"], "BAD", bad); continue
            _, patch = sh(["git", "diff"], tree)
            open(d + "/patch.diff", "w", encoding="utf8").write(patch)
            # removed lines must be original
            for fn in {e[0] for e in s["edits"]}:
                _, bl = sh(["git", "blame", "-s", "ceedfeb..HEAD", "--", fn], REPO)
                mine = {l.split(")", 1)[1][1:] for l in bl.splitlines() if not l.startswith("^")}
                cur = None
                removed = 0
                for l in patch.splitlines():
                    if l.startswith("--- a/"): cur = l[6:]
                    elif cur == fn and l.startswith("-") and not l.startswith("---"):
                        removed += 1
                        if l[1:] in mine and len(l.strip()) > 12:
                            bad = "removes a line of a fix: %r" % l
            if not any(l.startswith("-") and not l.startswith("---") for l in patch.splitlines()):
                bad = "changes no original line"
            dev = bad           # such a change is tried, but not kept under seeded/
            rc, out = sh(["/opt/venv/bin/python", "-m", "compileall", "-q", "number_parser", "number_parser_scripts"], tree, {"PYTHONPYCACHEPREFIX": base + "/pc"})
            if rc:
                print(s["id"], "BAD does not compile", out); continue
            ok, out = tests(tree)
            if not ok:
                print(s["id"], "BAD tests fail:", out.splitlines()[-3:]); continue
            rc0, o0 = demo(REPO, d)
            rc1, o1 = demo(tree, d)
            if rc0 != 0 or rc1 == 0:
                print(s["id"], "BAD demo: clean %d patched %d\n%s\n%s" % (rc0, rc1, o0[-500:], o1[-300:])); continue
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
            if not dev:
                dst = os.path.join(VERIF, "seeded", s["id"])
                os.makedirs(dst, exist_ok=True)
                for n in ("patch.diff", "demo.sh", "demo.py", "meta.json"):
                    shutil.copy(os.path.join(d, n), os.path.join(dst, n))
            res = ""
            if checks:
                for pid in [s["property"]] + extra:
                    rc, out = sh([sys.executable, "-m", "mc.checks." + pid.lower(), "quick"], VERIF, {"NP_REPO": tree})
                    caught = rc == 1 and "VIOLATION property=" + pid in out
                    res += " %s:%s" % (pid, "caught" if caught else "MISSED rc=%d" % rc)
                    rf = os.path.join(HERE, "seed_results.json")
                    allr = json.load(open(rf, encoding="utf8")) if os.path.exists(rf) else {}
                    if not dev:
                        allr.setdefault(s["id"], {})[pid] = "caught" if caught else "missed"
                    json.dump(allr, open(rf, "w", encoding="utf8"), indent=1, sort_keys=True)
                    if caught:
                        res += " " + " ".join(out[out.rfind(pid + " violated"):].split())[:160]
            print(s["id"], "OK" if not dev else "DEV (%s)" % dev, res, flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)


main()
