"""Shared machinery of the checks: loading the library from the working tree,
exhaustive explorers (choice trees, breadth-first state graphs), parallel workers,
violation artefacts, known findings and evidence files.

Nothing here looks at how the library is written; it is reached through its
public functions only.
"""
import collections
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NP_REPO", "/repo")  # other trees only while developing the checks
NPROC = int(os.environ.get("NP_PROCS", "0")) or min(8, os.cpu_count() or 1)
CALL_LIMIT_S = 20
MAX_VIOLATIONS_PER_WORKER = 25
FUNCS = ("parse", "parse_number", "parse_ordinal", "parse_fraction")
LANGS = ("en", "es", "hi", "ru", "uk")

NO_RESULT = "no result within"

_api = None
_check = None
FAIL_FAST = bool(os.environ.get("NP_FAIL_FAST"))  # only while developing the checks


class CallTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CallTimeout()


def load_api():
    """Imports number_parser from the working tree; never from old bytecode."""
    global _api
    if _api is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent/no-pycache"
        sys.path.insert(0, REPO)
        pkg = importlib.import_module("number_parser")
        here = os.path.realpath(pkg.__file__)
        assert here.startswith(os.path.realpath(REPO) + os.sep), here
        _api = {name: getattr(pkg, name) for name in FUNCS}
    return _api


def call(fn, *args):
    """One call of the real code: ('ok', value) or ('exc', exception type name)."""
    f = _api[fn] if _api else load_api()[fn]
    signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT_S)
    try:
        return ("ok", f(*args))
    except CallTimeout:
        return ("exc", NO_RESULT + " %d s" % CALL_LIMIT_S)
    except Exception as e:  # the library must not raise anything else
        return ("exc", type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def same(observed, expected):
    """Equal outcome, and of exactly the same type (True is not 1)."""
    return (
        observed[0] == expected[0]
        and type(observed[1]) is type(expected[1])
        and observed[1] == expected[1]
    )


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf8", "surrogatepass"), digest_size=8).digest(), "big"
    )


class Space:
    """Counts for one explored space, plus the violations found in it."""

    def __init__(self, name, bound=""):
        self.name, self.bound = name, bound
        self.state_keys = set()      # hashes of canonical states
        self.extra_states = 0        # states counted without being stored (trees: all distinct)
        self.transitions = 0
        self.traces = 0              # traces replayed on the implementation
        self.calls = 0               # calls of the implementation
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.exhaustive = True
        self.wall = 0.0
        self.data = {}               # anything else the workers report

    # -- used by the checks ------------------------------------------------
    def expect(self, fn, args, expected, why="", sample=None):
        """Calls the real function and compares with the oracle's outcome."""
        obs = call(fn, *args)
        self.calls += 1
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash((fn, obs[0], str(obs[1]))))
        if not same(obs, expected):
            self.violation(fn, args, expected, obs, why)
            return False
        if sample is not None and len(self.samples) < 3:
            self.samples.append({"call": fn, "args": list(args), "result": str(obs[1]), "note": sample})
        return True

    def violation(self, fn, args, expected, observed, why="", extra=None):
        v = {"space": self.name, "fn": fn, "args": list(args), "expected": list(expected),
             "observed": [observed[0], observed[1]], "why": why}
        if extra:
            v.update(extra)
        self.violations.append(v)
        if len(self.violations) >= MAX_VIOLATIONS_PER_WORKER or str(observed[1]).startswith(NO_RESULT):
            raise TooMany()

    def merge(self, o):
        self.state_keys |= o.state_keys
        self.extra_states += o.extra_states
        self.transitions += o.transitions
        self.traces += o.traces
        self.calls += o.calls
        if len(self.outcomes) < 2000000:
            self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:4]
        self.violations += o.violations
        self.exhaustive &= o.exhaustive
        self.data.update(o.data)

    @property
    def states(self):
        return len(self.state_keys) + self.extra_states


class TooMany(Exception):
    pass


# ---------------------------------------------------------------- parallelism
_job = None


def _run_chunk(idx):
    signal.signal(signal.SIGALRM, _on_alarm)
    name, fn, chunks = _job
    sp = Space(name)
    try:
        fn(sp, chunks[idx])
    except TooMany:
        sp.exhaustive = False
    return sp


def parallel(sp, fn, chunks):
    """Runs fn(space, chunk) for every chunk in forked workers; merges into sp."""
    global _job
    t = time.time()
    load_api()
    gc.collect()
    gc.freeze()
    _job = (sp.name, fn, chunks)
    if NPROC == 1 or len(chunks) == 1:
        results = map(_run_chunk, range(len(chunks)))
        for r in results:
            sp.merge(r)
            if len(sp.violations) > 100 or FAIL_FAST and sp.violations:
                sp.exhaustive = False
                break
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(NPROC) as pool:
            for r in pool.imap_unordered(_run_chunk, range(len(chunks))):
                sp.merge(r)
                if len(sp.violations) > 400 or FAIL_FAST and sp.violations or any(
                        str(v["observed"][1]).startswith(NO_RESULT) for v in sp.violations):
                    sp.exhaustive = False
                    pool.terminate()
                    break
    sp.wall += time.time() - t
    if sp.violations and _check is not None:
        _check.stop_if_broken()
    return sp


# ---------------------------------------------------------------- choice trees
def explore_tree(sp, init, succ, check, depth, key=None, split=2):
    """All traces of a transition system up to `depth` (depth-first, stateless).

    init: state; succ(state) -> list of (label, state); check(space, labels, state) is
    called for every trace (every prefix is a trace).  key(state) is the canonical
    state; without it every tree node counts as one state.
    """
    frontier = [((), init)]
    tops = []
    for _ in range(min(split, depth)):
        tops += frontier
        frontier = [(ls + (l,), s2) for ls, s in frontier for l, s2 in succ(s)]

    def visit(sp, labels, st):
        if key is None:
            sp.extra_states += 1
        else:
            sp.state_keys.add(h64(key(st)))
        if labels:
            sp.transitions += 1
        check(sp, labels, st)

    def rec(sp, labels, st):
        visit(sp, labels, st)
        if len(labels) < depth:
            for l, s2 in succ(st):
                rec(sp, labels + (l,), s2)

    def work(sp, chunk):
        kind, items = chunk
        for labels, st in items:
            if kind == "node":
                visit(sp, labels, st)
            else:
                rec(sp, labels, st)

    chunks = [("node", tops)] if tops else []
    n = max(1, len(frontier) // (NPROC * 16))
    chunks += [("sub", frontier[i:i + n]) for i in range(0, len(frontier), n)]
    return parallel(sp, work, chunks)


def explore_product(sp, dims, run, split=1):
    """All combinations of dims (each a list or a function of the earlier choices).

    The input generator is a transition system whose state is the tuple of choices made
    so far; run(space, choices) replays one complete trace on the implementation.
    """
    def options(prefix):
        d = dims[len(prefix)]
        return d(prefix) if callable(d) else d

    frontier, inner = [()], 0
    for _ in range(min(split, len(dims))):
        inner += len(frontier)
        frontier = [p + (o,) for p in frontier for o in options(p)]

    def rec(sp, prefix):
        sp.extra_states += 1
        sp.transitions += 1
        if len(prefix) == len(dims):
            before, calls = sp.traces, sp.calls
            run(sp, prefix)
            if sp.traces == before and sp.calls > calls:  # run() did not count several traces itself
                sp.traces += 1
            return
        for o in options(prefix):
            rec(sp, prefix + (o,))

    def work(sp, chunk):
        for p in chunk:
            rec(sp, p)

    n = max(1, len(frontier) // (NPROC * 12))
    chunks = [frontier[i:i + n] for i in range(0, len(frontier), n)]
    parallel(sp, work, chunks or [[]])
    sp.extra_states += inner
    sp.transitions += max(0, inner - 1)
    return sp


def explore_bfs(sp, init, succ, key, check, max_depth=None, max_states=None):
    """Breadth-first search with deduplication on key(state): every transition out of every
    reachable canonical state is replayed once, on a shortest trace reaching it.

    check(space, labels, state, key_is_new) is run in workers, level by level.
    """
    seen = {key(init)}
    level = [((), init)]
    depth = 0
    while level and (max_depth is None or depth < max_depth):
        edges, nxt = [], []
        for labels, st in level:
            for l, s2 in succ(st):
                k = key(s2)
                new = k not in seen
                if new:
                    seen.add(k)
                    nxt.append((labels + (l,), s2))
                edges.append((labels + (l,), s2))
        n = max(1, len(edges) // (NPROC * 6))

        def work(sp, chunk):
            for labels, s2 in chunk:
                sp.transitions += 1
                check(sp, labels, s2)

        parallel(sp, work, [edges[i:i + n] for i in range(0, len(edges), n)] or [[]])
        level = nxt
        depth += 1
        if max_states and len(seen) > max_states:
            sp.exhaustive = False
            break
    if level:
        sp.bound += " depth %d (not a fixed point: %d frontier states)" % (depth, len(level))
    else:
        sp.bound += " fixed point at depth %d" % depth
    sp.extra_states += len(seen)
    return sp


# ---------------------------------------------------------------- a check run
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.spaces = []
        self.extra = {}
        self.assumptions = []
        self.known_hit = []
        signal.signal(signal.SIGALRM, _on_alarm)
        global _check
        _check = self

    def stop_if_broken(self):
        """Ends the run after the space in which a violation was found."""
        known = self.known()
        if any(not any(v["fn"] == k["fn"] and list(v["args"]) == list(k["args"]) for k in known) for sp in self.spaces for v in sp.violations):
            self.finish()

    def space(self, name, bound=""):
        sp = Space(name, bound)
        self.spaces.append(sp)
        return sp

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        try:
            with open(path, encoding="utf8") as f:
                return [e for e in json.load(f) if e.get("property") == self.pid and e.get("status") == "open"]
        except FileNotFoundError:
            return []

    def finish(self):
        for sp in self.spaces:
            print("%s %-34s states=%d transitions=%d traces=%d calls=%d outcomes=%d %.1fs %s" % (
                self.pid, sp.name, sp.states, sp.transitions, sp.traces, sp.calls,
                len(sp.outcomes), sp.wall, sp.bound))
        violations = [v for sp in self.spaces for v in sp.violations]
        known = self.known()
        fresh = []
        for v in violations:
            for k in known:
                if v["fn"] == k["fn"] and list(v["args"]) == list(k["args"]):
                    if k not in self.known_hit:
                        self.known_hit.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                    break
            else:
                fresh.append(v)
        self.write_evidence(len(fresh))
        if not fresh:
            print("%s OK (%s, %.1fs)" % (self.pid, self.tier, time.time() - self.t0))
            sys.stdout.flush()
            sys.exit(0)
        fresh.sort(key=lambda v: (len(json.dumps(v["args"], default=str)), json.dumps(v["args"], default=str)))
        v = fresh[0]
        path = self.write_replay(v, len(fresh))
        print("%s violated: %s%r\n  expected %r\n  observed %r\n  %s (%d violating traces recorded)" % (
            self.pid, v["fn"], tuple(v["args"]), v["expected"], v["observed"], v["why"], len(fresh)))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        sys.exit(1)

    def write_replay(self, v, total):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rec = {"property": self.pid, "violations_recorded": total, **v}
        blob = json.dumps(rec, ensure_ascii=True, indent=1, default=str)
        name = "%s-%s.json" % (self.pid, hashlib.sha1(blob.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write(blob + "\n")
        return path

    def write_evidence(self, nviol):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        samples = [s for sp in self.spaces for s in sp.samples[:3]][:20]
        cov = {
            "states": sum(s.states for s in self.spaces),
            "transitions": sum(s.transitions for s in self.spaces),
            "traces_validated_against_impl": sum(s.traces for s in self.spaces),
            "calls_of_the_implementation": sum(s.calls for s in self.spaces),
            "distinct_outcomes": sum(len(s.outcomes) for s in self.spaces),
            "exhaustive": all(s.exhaustive for s in self.spaces),
            "samples": samples,
            "spaces": [{"name": s.name, "bound": s.bound.strip(), "states": s.states, "transitions": s.transitions,
                        "traces": s.traces, "calls": s.calls, "distinct_outcomes": len(s.outcomes),
                        "exhaustive": s.exhaustive, "wall_s": round(s.wall, 2)} for s in self.spaces],
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        with open(os.path.join(d, self.pid + ".json"), "w", encoding="utf8") as f:
            f.write(json.dumps(ev, ensure_ascii=True, indent=1, default=str) + "\n")
