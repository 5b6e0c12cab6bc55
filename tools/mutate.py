#!/usr/bin/env python3
"""Systematic mutants of the library: which survive the tests, and which of those no check reports.

  mutate.py survivors FILE OUT.json      every mutant of FILE that passes the stable tests
  mutate.py judge OUT.json RESULT.json C02 C05 ...   the quick checks, in that order, until one reports the mutant
Scratch copies only (NP_REPO); nothing here touches /repo.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


def mutants(src):
    """(line, description, source text) for every mutant."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))

    def emit(i, desc, change):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        parents = {}
        for p in ast.walk(t):
            for f, v in ast.iter_fields(p):
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if isinstance(x, ast.AST):
                            parents[x] = (p, f, k)
                elif isinstance(v, ast.AST):
                    parents[v] = (p, f, None)

        def replace(old, new):
            p, f, k = parents[old]
            if k is None:
                setattr(p, f, new)
            else:
                getattr(p, f)[k] = new
        if change(n, replace) is False:
            return None
        ast.fix_missing_locations(t)
        try:
            out = ast.unparse(t)
            compile(out, "x", "exec")
        except Exception:
            return None
        return (getattr(nodes[i], "lineno", 0), desc, out)

    SW = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
          ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    for i, n in enumerate(nodes):
        jobs = []
        seg = (ast.get_source_segment(src, n) or "")[:60] if hasattr(n, "lineno") else ""
        if isinstance(n, ast.Compare):
            jobs.append(("compare swapped: " + seg, lambda n, r: setattr(n, "ops", [SW[type(n.ops[0])]()])))
        if isinstance(n, ast.BoolOp):
            jobs.append(("and/or swapped: " + seg, lambda n, r: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for k in range(len(n.values)):
                jobs.append(("operand %d dropped: %s" % (k, seg), lambda n, r, k=k: r(n, n.values[1 - k]) if len(n.values) == 2 else n.values.pop(k)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            jobs.append(("not removed: " + seg, lambda n, r: r(n, n.operand)))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                jobs.append(("%r -> %r" % (n.value, n.value + d), lambda n, r, d=d: setattr(n, "value", n.value + d)))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            jobs.append(("%r flipped" % n.value, lambda n, r: setattr(n, "value", not n.value)))
        if isinstance(n, ast.Constant) and type(n.value) is str and len(n.value) < 80 and "\n" not in n.value:
            if n.value:
                jobs.append(("%r -> ''" % n.value, lambda n, r: setattr(n, "value", "")))
                jobs.append(("%r last char dropped" % n.value, lambda n, r: setattr(n, "value", n.value[:-1])))
                jobs.append(("%r first char dropped" % n.value, lambda n, r: setattr(n, "value", n.value[1:])))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if not (v and isinstance(n, ast.While)):
                    jobs.append(("condition %s: %s" % (v, (ast.get_source_segment(src, n.test) or "")[:60]), lambda n, r, v=v: setattr(n, "test", ast.Constant(v))))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            jobs.append(("statement removed: " + seg, lambda n, r: r(n, ast.Pass())))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            jobs.append(("returns None: " + seg, lambda n, r: setattr(n, "value", ast.Constant(None))))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "replace", "copy", "upper", "join", "split"):
            jobs.append(("call dropped: " + seg, lambda n, r: r(n, n.func.value)))
        if isinstance(n, ast.Call) and len(n.args) > 1:
            jobs.append(("arguments swapped: " + seg, lambda n, r: n.args.reverse()))
            jobs.append(("last argument dropped: " + seg, lambda n, r: n.args.pop() and None))
        if isinstance(n, ast.AugAssign):
            jobs.append(("aug op: " + seg, lambda n, r: setattr(n, "op", ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())))
            jobs.append(("aug to assign: " + seg, lambda n, r: r(n, ast.Assign([n.target], n.value))))
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod):
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}[type(n.op)]
            jobs.append(("bin op: " + seg, lambda n, r, new=new: setattr(n, "op", new())))
            jobs.append(("left only: " + seg, lambda n, r: r(n, n.left)))
            jobs.append(("right only: " + seg, lambda n, r: r(n, n.right)))
        if isinstance(n, (ast.List, ast.Tuple, ast.Dict)):
            size = len(n.keys if isinstance(n, ast.Dict) else n.elts)
            for k in range(size):
                def drop(n, r, k=k):
                    if isinstance(n, ast.Dict):
                        n.keys.pop(k)
                        n.values.pop(k)
                    elif not isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
                        return False
                    else:
                        n.elts.pop(k)
                jobs.append(("element %d dropped: %s" % (k, seg), drop))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and n.generators[0].ifs:
            jobs.append(("filter dropped: " + seg, lambda n, r: setattr(n.generators[0], "ifs", [])))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            jobs.append(("slice dropped: " + seg, lambda n, r: r(n, n.value)))
        if isinstance(n, ast.arg):
            continue
        for desc, f in jobs:
            m = emit(i, desc, f)
            if m:
                yield m


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, ""


def scratch(rel, text):
    base = tempfile.mkdtemp(prefix="np-mut-")
    shutil.copytree(REPO, base + "/tree", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    open(os.path.join(base, "tree", rel), "w", encoding="utf8").write(text)
    return base


def survives(job):
    rel, m = job
    base = scratch(rel, m[2])
    try:
        rc, _ = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "number_parser", "tests", "README.rst"],
                    base + "/tree", {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/x", "LANG": "C.UTF-8", "PYTHONPATH": base + "/tree"}, 60)
        return rc == 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    if sys.argv[1] == "survivors":
        rel = sys.argv[2]
        src = open(os.path.join(REPO, rel), encoding="utf8").read()
        plain = ast.unparse(ast.parse(src))
        ms = list({m[2]: m for m in mutants(src) if m[2] != plain}.values())
        print(len(ms), "mutants", flush=True)
        with ThreadPoolExecutor(int(os.environ.get("NP_PROCS", "8"))) as ex:
            ok = list(ex.map(survives, [(rel, m) for m in ms]))
        out = [{"file": rel, "line": m[0], "what": m[1], "text": m[2]} for m, s in zip(ms, ok) if s]
        print(len(out), "survive the tests")
        json.dump(out, open(sys.argv[3], "w"), indent=1)
    else:
        ms = json.load(open(sys.argv[2]))
        done = json.load(open(sys.argv[3])) if os.path.exists(sys.argv[3]) else []
        seen = {(d["line"], d["what"]) for d in done}
        for m in ms:
            if (m["line"], m["what"]) in seen:
                continue
            base = scratch(m["file"], m["text"])
            res = {}
            try:
                for pid in sys.argv[4:]:
                    rc, out = run([sys.executable, "-m", "mc.checks." + pid.lower(), "quick"], VERIF, {"NP_REPO": base + "/tree", "NP_FAIL_FAST": "1"})
                    res[pid] = rc
                    if rc == 1 and "VIOLATION property=" in out:
                        break
            finally:
                shutil.rmtree(base, ignore_errors=True)
            done.append({"line": m["line"], "what": m["what"], "res": res, "caught": [p for p, r in res.items() if r == 1]})
            json.dump(done, open(sys.argv[3], "w"), indent=1, ensure_ascii=False)
            print(m["line"], m["what"], res, flush=True)


main()
