"""Fresh loads of the library inside one process, and a snapshot of its module-level state."""
import functools
import importlib
import importlib.machinery
import os
import sys
import types

from mc import core

_codes = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles each source file of the working tree once per process; executes it anew each time."""

    def get_code(self, fullname):
        path = self.path
        if path not in _codes:
            with open(path, "rb") as f:
                _codes[path] = compile(f.read(), path, "exec", dont_inherit=True)
        return _codes[path]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "number_parser" and not name.startswith("number_parser."):
            return None
        if path is None:
            path = [core.REPO]
        base = name.rpartition(".")[2]
        for d in path:
            pkg = os.path.join(d, base, "__init__.py")
            mod = os.path.join(d, base + ".py")
            if os.path.isfile(pkg):
                return importlib.util.spec_from_file_location(name, pkg, loader=_Loader(name, pkg),
                                                              submodule_search_locations=[os.path.dirname(pkg)])
            if os.path.isfile(mod):
                return importlib.util.spec_from_file_location(name, mod, loader=_Loader(name, mod))
        return None


def install():
    import importlib.util  # noqa: F401
    sys.dont_write_bytecode = True
    if not any(isinstance(f, type) and f is _Finder or f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)


def fresh():
    """Forgets every module of the library and imports it again; returns its entry points."""
    for name in [n for n in sys.modules if n == "number_parser" or n.startswith("number_parser.")]:
        del sys.modules[name]
    pkg = importlib.import_module("number_parser")
    core._api = {name: getattr(pkg, name) for name in core.FUNCS}
    return core._api


_ATOMS = (str, int, float, bool, bytes, type(None), complex)


def snapshot():
    """Canonical form of everything reachable from the library's modules (values, not identities)."""
    seen = {}

    def walk(o):
        if isinstance(o, _ATOMS):
            return o if len(repr(o)) < 200 else hash(o)
        k = id(o)
        if k in seen:
            return ("ref", seen[k])
        seen[k] = len(seen)
        if isinstance(o, dict):
            return ("dict", type(o).__name__, tuple((walk(a), walk(b)) for a, b in list(o.items()) if a != "__builtins__"))
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, tuple(walk(x) for x in o))
        if isinstance(o, (set, frozenset)):
            return ("set", tuple(sorted((repr(x) for x in o))))
        if isinstance(o, functools._lru_cache_wrapper):
            return ("lru", o.cache_info().currsize, walk(o.__wrapped__))
        if isinstance(o, types.FunctionType):
            if not (o.__module__ or "").startswith("number_parser"):
                return ("function", o.__module__, o.__qualname__)
            cells = []
            for c in o.__closure__ or ():
                try:
                    cells.append(walk(c.cell_contents))
                except ValueError:
                    cells.append("empty cell")
            return ("function", o.__qualname__, walk(o.__defaults__), walk(o.__kwdefaults__), walk(o.__dict__), tuple(cells))
        if isinstance(o, type):
            if not (o.__module__ or "").startswith("number_parser"):
                return ("class", o.__module__, o.__qualname__)
            return ("class", o.__qualname__, tuple((a, walk(b)) for a, b in sorted(vars(o).items())
                                                   if a not in ("__weakref__", "__dict__")))
        if isinstance(o, types.ModuleType):
            return ("module", o.__name__)
        mod = type(o).__module__
        if mod.startswith("number_parser") or mod in ("collections", "types", "threading", "_thread"):
            inner = getattr(o, "__dict__", None)
            return ("object", type(o).__qualname__, walk(inner) if inner is not None else "")
        return ("other", type(o).__qualname__)

    out = []
    for name in sorted(n for n in sys.modules if n == "number_parser" or n.startswith("number_parser.")):
        m = sys.modules[name]
        out.append((name, tuple((a, walk(b)) for a, b in sorted(vars(m).items())
                                if a not in ("__builtins__", "__spec__", "__loader__", "__cached__"))))
    return core.h64(out)


def strings():
    """Every text kept in the library's modules, at any depth (keys, members, caches)."""
    seen, out = set(), set()
    todo = [vars(sys.modules[n]) for n in list(sys.modules) if n == "number_parser" or n.startswith("number_parser.")]
    while todo:
        o = todo.pop()
        if isinstance(o, str):
            out.add(o)
            continue
        if isinstance(o, _ATOMS) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            for a, b in list(o.items()):
                if a not in ("__builtins__", "__doc__"):
                    todo += [a, b]
        elif isinstance(o, (list, tuple, set, frozenset)) or type(o).__name__ == "deque":
            todo += list(o)
        elif isinstance(o, types.FunctionType):
            if (o.__module__ or "").startswith("number_parser"):
                todo += [o.__defaults__, o.__kwdefaults__, o.__dict__]
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(o, type):
            if (o.__module__ or "").startswith("number_parser"):
                todo.append(dict(vars(o)))
        elif type(o).__module__.startswith("number_parser"):
            todo.append(getattr(o, "__dict__", None))
    return out


def pristine_strings():
    """strings() right after loading everything, before any call."""
    fresh()
    for lang in core.LANGS:
        importlib.import_module("number_parser.data." + lang)
    return strings()
