"""Runs the data generation script on scratch copies of the tree."""
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core

RAW = "number_parser_data/raw_cldr_translation_data"
SUP = "number_parser_data/supplementary_translation_data"
OUT = "number_parser/data"
SCRIPTS = "number_parser_scripts"
SCRIPT = SCRIPTS + "/write_complete_language_data.py"

# Python start-up file of the script's process: directory listings in a chosen order, whichever call is used
_SITE = '''
import os
_spec = os.environ.get("MC_LISTING")
if _spec:
    _spec = _spec.split(":")
    def _order(names):
        names = sorted(names)
        n = len(names)
        kind = _spec[0]
        if kind == "reversed":
            names.reverse()
        elif kind == "rotate":
            k = int(_spec[1]) % n if n else 0
            names = names[k:] + names[:k]
        elif kind == "walk":   # Walecki zigzag: the walks of all k, with their reversals, contain every ordered pair
            m = n + n % 2
            k = int(_spec[1])
            zig = []
            for i in range(m):
                j = (k + ((i + 1) // 2) * (1 if i % 2 else -1)) % m
                if j < n:
                    zig.append(names[j])
            names = zig[::-1] if _spec[2] == "r" else zig
        elif kind == "perm":
            p = [int(x) for x in _spec[1].split(",")]
            names = [names[i] for i in p if i < n] + names[len(p):]
        return names
    _listdir, _scandir = os.listdir, os.scandir
    def listdir(*a, **k):
        return _order(_listdir(*a, **k))
    class _Scan:
        def __init__(self, it):
            self.e = {e.name: e for e in it}
            self.i = iter([self.e[n] for n in _order(self.e)])
        def __iter__(self): return self
        def __next__(self): return next(self.i)
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
    def scandir(*a, **k):
        with _scandir(*a, **k) as it:
            return _Scan(list(it))
    os.listdir, os.scandir = listdir, scandir
'''


def scratch_base():
    base = tempfile.mkdtemp(prefix="mc-gen-")
    os.mkdir(os.path.join(base, "site"))
    with open(os.path.join(base, "site", "sitecustomize.py"), "w") as f:
        f.write(_SITE)
    return base


def remove(base):
    assert os.path.basename(base).startswith("mc-gen-")
    shutil.rmtree(base, ignore_errors=True)


def sources(repo=None):
    return sorted(n for n in os.listdir(os.path.join(repo or core.REPO, RAW)) if n.endswith(".json"))


def make_tree(dst, only=None, repo=None):
    """Copies the script, the sources (`only`: some of them) and an output directory."""
    repo = repo or core.REPO
    os.makedirs(os.path.join(dst, OUT))
    shutil.copytree(os.path.join(repo, SCRIPTS), os.path.join(dst, SCRIPTS), ignore=shutil.ignore_patterns("__pycache__"))
    for d in (RAW, SUP):
        if only is None:
            shutil.copytree(os.path.join(repo, d), os.path.join(dst, d))
        else:
            os.makedirs(os.path.join(dst, d))
            for n in os.listdir(os.path.join(repo, d)):
                if n in only:
                    shutil.copy(os.path.join(repo, d, n), os.path.join(dst, d, n))
    for n in os.listdir(os.path.join(repo, OUT)):
        if n.endswith(".py") and (only is None or n[:-3] + ".json" in only or n == "__init__.py"):
            shutil.copy(os.path.join(repo, OUT, n), os.path.join(dst, OUT, n))
    for n in os.listdir(os.path.join(repo, "number_parser")):
        if n.endswith(".py"):
            shutil.copy(os.path.join(repo, "number_parser", n), os.path.join(dst, "number_parser", n))


def read_tree(root):
    """{relative path: bytes} of every file; symbolic links as their target."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = b"-> " + os.readlink(p).encode()
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def run_script(tree, base, listing=None, env=None, cwd=None, argv=None, timeout=120):
    """Runs the script of `tree`; returns (exit status, stderr tail)."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "MC_", "LD_"))}
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = os.path.join(base, "site")
    e["HOME"] = base
    if listing:
        e["MC_LISTING"] = listing
    e.update(env or {})
    cmd = [sys.executable] + (argv or [os.path.join(tree, SCRIPT)])
    try:
        p = subprocess.run(cmd, cwd=cwd or tree, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 999, "no end within %d s" % timeout
    return p.returncode, p.stderr.decode("utf8", "replace")[-400:]


def diff(want, got):
    """Readable first differences of two {path: bytes}."""
    out = []
    for p in sorted(set(want) | set(got)):
        if want.get(p) != got.get(p):
            if p not in got:
                out.append("%s missing" % p)
            elif p not in want:
                out.append("%s unexpected" % p)
            else:
                a, b = want[p].split(b"\n"), got[p].split(b"\n")
                for i in range(max(len(a), len(b))):
                    x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
                    if x != y:
                        out.append("%s line %d: %r instead of %r" % (p, i + 1, y and y.decode("utf8", "replace"),
                                                                     x and x.decode("utf8", "replace")))
                        break
    return out
