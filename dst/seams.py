"""Seams: every source of nondeterminism PyEMD can reach is replaced by the simulator's version.

`install()` runs once, in the pristine process image, before PyEMD is imported.  All stand-ins consult `CTX`,
the state of the simulated process this OS process plays (caller, pool worker, reference, user process).
"""
import datetime
import errno
import hashlib
import importlib
import io
import os
import platform
import random
import socket
import sys
import time
import types

REAL = types.SimpleNamespace(
    time=time.time,
    monotonic=time.monotonic,
    perf_counter=time.perf_counter,
    sleep=time.sleep,
    getpid=os.getpid,
    getppid=os.getppid,
    sched_getaffinity=os.sched_getaffinity,
    datetime=datetime.datetime,
    cpu_count=os.cpu_count,
    urandom=os.urandom,
    getloadavg=os.getloadavg,
    sysconf=os.sysconf,
    uname=os.uname,
    gethostname=socket.gethostname,
    stderr=sys.stderr,
    stdout=sys.stdout,
)


class Ctx:
    """What the simulated process sees of its environment."""

    def __init__(self):
        self.active = False
        self.sim = None  # the Sim of this run (caller role only)
        self.role = "idle"
        self.entropy_key = "idle"
        self.entropy_n = 0
        self.pid = 1000
        self.ppid = 999
        self.cpus = 4
        self.load = 0.5  # load average, also moves the free memory and the name of the machine
        self.env_reply = None  # what variables nobody set are set to, when the library asks for them
        self.clock_now = 1.7e9
        self.clock_step = 1e-6
        self.clock_reads = 0
        self.clock_jumps = {}
        self.mono = 0.0
        self.probe = None  # callable(name, payload): side channel of harness decomposers
        self.hook_fault = None  # [calls left before failing, exception factory]
        self.hook_fired = False

    def read_clock(self):
        self.clock_reads += 1
        jump = self.clock_jumps.get(self.clock_reads)
        if jump is not None:
            self.clock_now += jump
            if self.sim is not None:
                self.sim.count("clock_jump")
        self.clock_now += self.clock_step
        self.mono += self.clock_step
        return self.clock_now

    def read_mono(self):
        self.read_clock()
        return self.mono

    def advance(self, dt):
        self.clock_now += dt
        self.mono += dt

    def urandom(self, n):
        out = b""
        while len(out) < n:
            self.entropy_n += 1
            out += hashlib.sha256(f"{self.entropy_key}/{self.entropy_n}".encode()).digest()
        return out[:n]


CTX = Ctx()


def _time():
    return CTX.read_clock() if CTX.active else REAL.time()


def _time_ns():
    return int(_time() * 1e9)


def _mono():
    return CTX.read_mono() if CTX.active else REAL.monotonic()


def _mono_ns():
    return int(_mono() * 1e9)


def _sleep(dt):
    if CTX.active:
        dt = max(0.0, float(dt))
        if CTX.sim is not None and not CTX.sim.elsewhere:
            CTX.sim.wait(lambda: False, dt)  # the workers go on meanwhile
        else:
            CTX.advance(dt)
    else:
        REAL.sleep(dt)


def _with_now(fn):
    """time.localtime and the like: without an argument they read the clock."""

    def call(secs=None):
        return fn(_time() if secs is None else secs)

    return call


class _DateTimeMeta(type(datetime.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL.datetime)


class _DateTime(datetime.datetime, metaclass=_DateTimeMeta):
    @classmethod
    def now(cls, tz=None):
        return REAL.datetime.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return REAL.datetime.fromtimestamp(_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _getpid():
    return CTX.pid if CTX.active else REAL.getpid()


def _cpu_count():
    return CTX.cpus if CTX.active else REAL.cpu_count()


def _urandom(n):
    return CTX.urandom(n) if CTX.active else REAL.urandom(n)


def _getloadavg():
    return (CTX.load, CTX.load * 0.9, CTX.load * 0.8) if CTX.active else REAL.getloadavg()


def _sysconf(name):
    if CTX.active and name in ("SC_AVPHYS_PAGES", os.sysconf_names.get("SC_AVPHYS_PAGES")):
        return int(2e6 / (1 + CTX.load))
    if CTX.active and name in ("SC_NPROCESSORS_ONLN", "SC_NPROCESSORS_CONF", os.sysconf_names.get("SC_NPROCESSORS_ONLN")):
        return CTX.cpus
    return REAL.sysconf(name)


def _hostname():
    return f"host{int(CTX.load * 1000)}" if CTX.active else REAL.gethostname()


def _uname():
    u = REAL.uname()
    return os.uname_result((u.sysname, _hostname(), u.release, u.version, u.machine)) if CTX.active else u


def _environ_getitem(self, key):
    """Environment variables the library asks for and nobody set: in some runs they are set."""
    try:
        return _real_getitem(self, key)
    except KeyError:
        if not CTX.active or CTX.env_reply is None or self is not os.environ:
            raise
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.startswith("<frozen"):
            f = f.f_back
        if f is None or not f.f_code.co_filename.startswith(_library):
            raise
        if CTX.sim is not None:
            CTX.sim.count("environment_asked")
        return CTX.env_reply


_library = os.path.join(os.path.realpath(os.environ.get("PYEMD_REPO", "/repo")), "PyEMD") + os.sep
_real_getitem = os._Environ.__getitem__


class SimStream(io.TextIOBase):
    """stderr of a simulated process. Can start failing (broken pipe, full disk)."""

    def __init__(self):
        self.fail_at = None
        self.writes = 0
        self.exc = errno.EPIPE
        self.fired = False

    def writable(self):
        return True

    def write(self, s):
        self.writes += 1
        if self.fail_at is not None and self.writes >= self.fail_at:
            self.fired = True
            raise OSError(self.exc, os.strerror(self.exc))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


_installed = False


def repo_root():
    return os.path.realpath(os.environ.get("PYEMD_REPO", "/repo"))


def install():
    """Install all seams and import PyEMD from the repository's working tree."""
    global _installed
    if _installed:
        return
    _installed = True
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _mono
    time.monotonic_ns = _mono_ns
    time.perf_counter = _mono
    time.perf_counter_ns = _mono_ns
    time.process_time = _mono
    time.thread_time = _mono
    time.clock_gettime = lambda clk: _time() if clk == time.CLOCK_REALTIME else _mono()
    time.clock_gettime_ns = lambda clk: int(time.clock_gettime(clk) * 1e9)
    time.localtime, time.gmtime, time.ctime = _with_now(time.localtime), _with_now(time.gmtime), _with_now(time.ctime)
    time.sleep = _sleep
    os.getpid = _getpid
    os.getppid = lambda: CTX.ppid if CTX.active else REAL.getppid()
    os.cpu_count = _cpu_count
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = _cpu_count
    os.sched_getaffinity = lambda pid=0: set(range(_cpu_count()))
    os.urandom = _urandom
    random._urandom = _urandom
    os.getloadavg = _getloadavg
    os.sysconf = _sysconf
    os.uname = _uname
    socket.gethostname = _hostname
    platform.node = _hostname
    os._Environ.__getitem__ = _environ_getitem

    from dst import pool as simpool

    simpool.install()

    root = repo_root()
    sys.path.insert(0, root)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy  # noqa
        import scipy.interpolate  # noqa
        import scipy.signal  # noqa
        import tqdm

        from dst import memory

        memory.install()
        tqdm.tqdm.monitor_interval = 0  # no uncontrolled monitor thread
        _patch_numba()
        datetime.datetime = _DateTime
        import PyEMD

        where = os.path.realpath(PyEMD.__file__)
        if not where.startswith(root + os.sep):
            raise RuntimeError(f"PyEMD imported from {where}, not from {root}")
        mods = ["PyEMD.EMD_matlab", "PyEMD.EMD2d", "PyEMD.BEMD", "PyEMD.experimental.jitemd", "PyEMD.checks", "PyEMD.compact"]
        for m in mods:
            importlib.import_module(m)
    import logging

    logging.getLogger().addHandler(logging.NullHandler())


def _patch_numba():
    """Interpret JitEMD's source instead of compiling it (NUMBA_DISABLE_JIT=1 is set).

    numba's decorators then return the plain functions; two of its features still need a stand-in: typing of
    a plain dict used in a signature, and the conversion of float arguments where a signature says int64.
    """
    import numba as nb

    real_typeof = nb.typeof

    def typeof(v, *a, **k):
        if isinstance(v, dict):
            return nb.types.DictType(nb.types.unicode_type, nb.types.float64)
        return real_typeof(v, *a, **k)

    nb.typeof = typeof

    def fake_jit(*args, **kwargs):
        if len(args) == 1 and isinstance(args[0], types.FunctionType):
            return args[0]
        sig = args[0] if args else None
        int_pos = [i for i, t in enumerate(getattr(sig, "args", ()) or ()) if t is nb.types.int64]

        def deco(fn):
            if not int_pos:
                return fn

            def call(*a, **k):
                a = list(a)
                for i in int_pos:
                    if i < len(a):
                        a[i] = int(a[i])
                return fn(*a, **k)

            call.__name__ = fn.__name__
            call.__wrapped__ = fn
            return call

        return deco

    nb.jit = fake_jit
    nb.njit = fake_jit
