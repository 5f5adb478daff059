"""Fault points inside PyEMD code: failing allocations and delivered interrupts, placed by instruction.

sys.monitoring INSTRUCTION events on PyEMD's code objects.  Two kinds of points:
  alloc     - before a call, arithmetic, comparison or indexing instruction (the operation does not happen);
  interrupt - where CPython delivers a signal: after a call, at a backward jump, at function entry.
"""
import dis
import gc
import os
import sys
import types

from dst import seams, sim as simmod
from dst.seams import CTX

mon = sys.monitoring
TOOL = 3
E = mon.events

ALLOC_OPS = {
    "CALL",
    "CALL_FUNCTION_EX",
    "CALL_INTRINSIC_1",
    "BINARY_OP",
    "BINARY_SUBSCR",
    "BINARY_SLICE",
    "STORE_SUBSCR",
    "STORE_SLICE",
    "UNARY_NEGATIVE",
    "UNARY_INVERT",
    "COMPARE_OP",
}
STORE_OPS = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR", "DELETE_ATTR"}
CALL_OPS = {"CALL", "CALL_FUNCTION_EX"}


class InjectedError(Exception):
    """A failure of a caller-supplied decomposer."""


class OpaqueError(Exception):
    """A failure that cannot be pickled back to the caller."""

    def __reduce__(self):
        raise TypeError("cannot pickle OpaqueError")


class FussyError(Exception):
    """A failure that can be pickled but not loaded again: its constructor wants more than it hands to Exception."""

    def __init__(self, what, where):
        super().__init__(f"{what} at {where}")


def make_exc(name):
    import numpy as np

    table = {
        "MemoryError": lambda: MemoryError("injected"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt(),
        "ValueError": lambda: ValueError("injected"),
        "RuntimeError": lambda: RuntimeError("injected"),
        "OSError": lambda: OSError(28, "injected"),
        "LinAlgError": lambda: np.linalg.LinAlgError("injected"),
        "FloatingPointError": lambda: FloatingPointError("injected"),
        "AssertionError": lambda: AssertionError("injected"),
        "Exception": lambda: Exception("injected"),
        "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
        "IndexError": lambda: IndexError("injected"),
        "TypeError": lambda: TypeError("injected"),
        "KeyError": lambda: KeyError("injected"),
        "AttributeError": lambda: AttributeError("injected"),
        "TimeoutError": lambda: TimeoutError("injected"),
        "EOFError": lambda: EOFError("injected"),
        "InjectedError": lambda: InjectedError("injected"),
        "FussyError": lambda: FussyError("injected", "here"),
        "OpaqueError": lambda: OpaqueError("injected"),
    }
    return table[name]()


def pyemd_codes():
    root = os.path.join(seams.repo_root(), "PyEMD") + os.sep
    seen = {}

    def add(code):
        if code in seen:
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and os.path.realpath(o.__code__.co_filename).startswith(root):
            add(o.__code__)
    tests = os.path.join(root, "tests") + os.sep
    return [c for c in seen if not os.path.realpath(c.co_filename).startswith(tests)]


class Points:
    """Offsets of fault points per code object."""

    def __init__(self, codes):
        self.codes = codes
        self.alloc = {}
        self.interrupt = {}
        self.store = {}  # not points, only marks: where something other than a local variable is written
        for c in codes:
            al, it = set(), set()
            after_call = False
            for ins in dis.get_instructions(c):
                if ins.opname == "CACHE":
                    continue
                if after_call:
                    it.add(ins.offset)
                    after_call = False
                if ins.opname in ALLOC_OPS:
                    al.add(ins.offset)
                if ins.opname in CALL_OPS:
                    after_call = True
                if ins.opname.startswith("JUMP_BACKWARD") and "NO_INTERRUPT" not in ins.opname:
                    it.add(ins.offset)
            self.store[c] = {i.offset for i in dis.get_instructions(c) if i.opname in STORE_OPS}
            self.alloc[c] = al
            self.interrupt[c] = it


POINTS = None


def prepare():
    global POINTS
    if POINTS is None:
        POINTS = Points(pyemd_codes())


class Injector:
    def __init__(self):
        self.on = False
        self.n = 0
        self.k = None
        self.exc = None
        self.fired = None
        self.table = None
        self.only = None

    def _cb(self, code, offset):
        if offset not in self.table.get(code, ()):
            return mon.DISABLE
        self._point(code, offset)

    def _start(self, code, offset):
        self._point(code, -1)

    def _point(self, code, offset):
        self.n += 1
        if self.k is not None and self.n == self.k:
            self.fired = (os.path.basename(code.co_filename), code.co_qualname, offset)
            sim = CTX.sim
            if self.exc == "KeyboardInterrupt" and sim is not None and sim.elsewhere:
                sim.pending_interrupt = True  # signals are delivered in the main thread only
                return
            raise make_exc(self.exc)

    def start(self, kind, k=None, exc=None):
        prepare()
        self.stop()
        self.table = getattr(POINTS, kind)
        self.n, self.k, self.exc, self.fired = 0, k, exc, None
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "dst-faults")
        events = E.INSTRUCTION
        mon.register_callback(TOOL, E.INSTRUCTION, self._cb)
        if kind == "interrupt":  # also at function entry
            events |= E.PY_START
            mon.register_callback(TOOL, E.PY_START, self._start)
        for c in POINTS.codes:
            mon.set_local_events(TOOL, c, events)
        mon.restart_events()
        self.on = True

    def stop(self):
        if self.on:
            for c in POINTS.codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, E.INSTRUCTION, None)
            mon.register_callback(TOOL, E.PY_START, None)
            self.on = False
        return self.n


INJ = Injector()


def reset():
    INJ.stop()
    CTX.hook_fault = None
    CTX.hook_fired = False


def resolve(at, total):
    """A point spec -> 1-based number of the point. ['frac', f], ['tail', j] or ['abs', k]."""
    mode, v = at
    if mode == "abs":
        return int(v)
    if mode == "tail":
        return max(1, total - int(v))
    return max(1, min(total, 1 + int(v * total)))


def hook():
    """Called by the harness's own decomposers at the start of every decomposition."""
    f = CTX.hook_fault
    if f is not None:
        f[0] -= 1
        if f[0] < 0:
            CTX.hook_fault = None
            CTX.hook_fired = True
            raise make_exc(f[1])


# -- in a worker: faults for one task -------------------------------------------------------------
def arm_task(fault, task):
    reset()
    if fault is None:
        return
    if fault["kind"] == "decomposer":
        CTX.hook_fault = [fault.get("call", 0), fault["exc"]]
        return
    kind = fault.get("points", "alloc")
    at = fault["at"]
    total = 0
    if at[0] != "abs":

        def count():
            CTX.probe = lambda *a: None
            INJ.start(kind)
            try:
                task[2](*task[3], **task[4])
            except Exception:
                pass
            return INJ.stop()

        total = simmod.forkcall(count)
        if total == 0:
            return
    INJ.start(kind, resolve(at, total), fault["exc"])


def disarm_task():
    INJ.stop()
    fired = CTX.hook_fired or INJ.fired is not None
    CTX.hook_fired = False
    INJ.fired = None
    CTX.hook_fault = None
    return fired
