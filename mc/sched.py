"""Controlled scheduler: explores interleavings of real threads running the library.

Every thread is traced (sys.settrace) in the library's own functions; a scheduling point is a source line
or a bytecode instruction that can touch something shared.  A schedule is a list of segments
(thread, stop) - run that thread until its scheduling point number `stop` (None: to its end).
The same schedule on a fresh load of the library always gives the same execution.
"""
import dis
import os
import sys
import threading

from mc import core, fresh

STALL_S = 0.25   # a thread that makes no progress for so long is taken to wait for another one
END_S = 20

# instructions that touch only the running frame cannot be seen by another thread
_LOCAL = {"LOAD_FAST", "STORE_FAST", "LOAD_CONST", "POP_TOP", "COPY", "SWAP", "RESUME", "CACHE", "NOP", "PUSH_NULL", "JUMP_FORWARD",
          "JUMP_BACKWARD", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "RETURN_VALUE",
          "RETURN_CONST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_STRING",
          "FORMAT_VALUE", "IS_OP", "KW_NAMES", "END_FOR", "MAKE_CELL", "COPY_FREE_VARS", "LOAD_CLOSURE", "EXTENDED_ARG",
          "RETURN_GENERATOR", "YIELD_VALUE", "UNPACK_SEQUENCE", "PRECALL", "GET_ITER", "LOAD_FAST_LOAD_FAST", "END_SEND"}
_visible = {}


def _visible_offsets(code):
    v = _visible.get(code)
    if v is None:
        v = _visible[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname not in _LOCAL)
    return v


class Runner:
    """One thread of an execution."""

    def __init__(self, calls, grain, prefix):
        self.calls, self.grain, self.prefix = calls, grain, prefix
        self.count = 0
        self.stop = -1              # park before this point number
        self.log = None             # list of locations, when recording
        self.parked = threading.Event()
        self.go = threading.Event()
        self.done = False
        self.results = []
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.started = False
        self.free = False

    def point(self, frame, where):
        i = self.count
        self.count += 1
        if self.log is not None:
            self.log.append((frame.f_code, where))
        if i == self.stop and not self.free:
            self.stop = -1
            self.parked.set()
            self.go.wait(END_S)
            self.go.clear()

    def global_trace(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(self.prefix) or code.co_name == "<module>":
            return None
        if self.grain == "call":
            self.point(frame, "call")
            return None
        if self.grain == "op":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            vis = _visible_offsets(code)

            def local(frame, event, arg):
                if event == "opcode" and frame.f_lasti in vis:
                    self.point(frame, frame.f_lasti)
                return local
            return local

        def local_line(frame, event, arg):
            if event == "line":
                self.point(frame, frame.f_lineno)
            return local_line
        return local_line

    def run(self):
        fn = core._api
        sys.settrace(self.global_trace)
        try:
            for f, args in self.calls:
                try:
                    self.results.append(("ok", fn[f](*args)))
                except Exception as e:
                    self.results.append(("exc", type(e).__name__))
        finally:
            sys.settrace(None)
            self.done = True
            self.parked.set()


def execute(threads, schedule, grain, warm=()):
    """Runs the schedule on a fresh load; returns (list of result lists, stalls)."""
    fresh.fresh()
    for f, args in warm:
        core._api[f](*args)
    prefix = os.path.join(os.path.realpath(core.REPO), "number_parser") + os.sep
    alt = os.path.join(core.REPO, "number_parser") + os.sep
    rs = [Runner(calls, grain, (prefix, alt)) for calls in threads]
    stalls = 0
    for t, stop in schedule:
        r = rs[t]
        if r.done:
            continue
        r.parked.clear()
        if r.done:
            continue
        r.stop = -1 if stop is None else stop
        if not r.started:
            r.started = True
            r.thread.start()
        else:
            r.go.set()
        if not r.parked.wait(END_S if len(schedule) == 1 else STALL_S):
            stalls += 1             # blocked on something another thread holds: let the others run
    for r in rs:                    # let everything finish
        r.free = True
        if not r.started:
            r.started = True
            r.thread.start()
        r.go.set()
    for r in rs:
        r.thread.join(END_S)
        if not r.done:
            r.results.append(("exc", core.NO_RESULT + " %d s" % END_S))
    return [r.results for r in rs], stalls


def record(threads, t, grain, warm=()):
    """Scheduling points thread t passes when it runs first, alone: list of (code, where)."""
    prefix = os.path.join(os.path.realpath(core.REPO), "number_parser") + os.sep
    # CPython 3.12 reports instructions only from the second traced run of a code object on
    for _ in range(2 if grain == "op" else 1):
        fresh.fresh()
        for f, args in warm:
            core._api[f](*args)
        r = Runner(threads[t], grain, (prefix, os.path.join(core.REPO, "number_parser") + os.sep))
        r.log = []
        r.started = True
        r.thread.start()
        r.thread.join(END_S)
    return r.log


def stops(log, first, last):
    """Point numbers to preempt at: the first `first` and last `last` passes of every location."""
    where = {}
    for i, loc in enumerate(log):
        where.setdefault(loc, []).append(i)
    out = set()
    for ps in where.values():
        out.update(ps[:first])
        if last:
            out.update(ps[-last:])
    return sorted(out)
