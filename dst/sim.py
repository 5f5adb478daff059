"""One simulated run: seeded choices, event log, fault bookkeeping, and the processes of the run."""
import ctypes
import hashlib
import os
import pickle
import random
import signal
import socket
import struct
import sys
import warnings

from dst import memory
from dst.seams import CTX, REAL, SimStream

STEP_LIMIT = 20000  # scheduling steps after which a run counts as not making progress


class SimHang(BaseException):
    """The simulated process can never make progress again (nothing is enabled, no timeout)."""


class Violation(Exception):
    """A property does not hold in this run."""

    def __init__(self, klass, detail):
        super().__init__(f"{klass}: {detail}")
        self.klass = klass
        self.detail = detail


class HarnessError(Exception):
    """The machinery itself failed; never a verdict."""


class Chooser:
    """Source of all schedule choices. Choice 0 is always the plainest option."""

    def __init__(self, seed=None, script=None):
        self.rng = random.Random(seed) if script is None else None
        self.script = script
        self.taken = []

    def choose(self, n, bias=None):
        if n <= 1:
            return 0
        i = len(self.taken)
        if self.script is not None:
            v = self.script[i] % n if i < len(self.script) else 0
        elif bias is not None:
            v = 0 if self.rng.random() < bias else self.rng.randrange(n)
        else:
            v = self.rng.randrange(n)
        self.taken.append(v)
        return v


class Sim:
    def __init__(self, seed, chooser, env=None):
        env = env or {}
        self.seed = seed
        self.chooser = chooser
        self.env = env
        self.start_method = env.get("start", "fork")
        self.log = []
        self.counts = {}
        self.steps = 0
        self.pools = []
        self.elsewhere = False
        self.pending_interrupt = False
        self.op_no = 0
        self.hung = False
        self.op_pools = 0  # pools created in the current operation
        self.op_waits = 0
        self.op_faults = []
        self.op_step0 = 0
        self.fired = []
        self.next_pid = 2000
        self.next_worker = 0
        self.probes = []
        self.entropy_ids = 0
        self.template = None
        self.sim_time0 = 0.0
        self.max_steps_op = 0
        self.totals = None  # fault points of calls that are repeated identically
        self.peak = 0  # workers of the current operation in existence at a time

    # -- bookkeeping ------------------------------------------------------------------------------
    def event(self, *what):
        self.log.append(what)

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def fire(self, fault):
        self.fired.append(fault)
        self.count("fault:" + fault["kind"])
        self.event("fault", fault["kind"])

    def digest(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]

    def choose(self, n, bias=None):
        return self.chooser.choose(n, bias)

    # -- operations -------------------------------------------------------------------------------
    def begin_op(self, faults=()):
        self.op_no += 1
        self.op_pools = 0
        self.op_waits = 0
        self.op_faults = [dict(f) for f in faults]
        self.pending_interrupt = False
        self.op_step0 = self.steps
        self.fired = []

    def end_op(self):
        self.max_steps_op = max(self.max_steps_op, self.steps - self.op_step0)
        self.op_faults = []

    def fault(self, kind, **match):
        for f in self.op_faults:
            if f["kind"] != kind or (f.get("done") and not f.get("sticky")):
                continue
            if all(f.get(k, v) == v or (k == "task" and f.get("sticky") and v >= f[k]) for k, v in match.items()):
                return f
        return None

    def step(self):
        self.steps += 1
        if self.steps - self.op_step0 > STEP_LIMIT:
            self.hung = True
            raise SimHang("step limit")
        CTX.advance(1e-3)

    def enter(self, env=None):
        """Make this OS process play the caller of this run."""
        env = env or self.env
        CTX.active = True
        CTX.sim = self
        CTX.role = "caller"
        CTX.entropy_key = f"{self.seed}/caller"
        CTX.entropy_n = 0
        CTX.pid = env.get("pid", 1000)
        CTX.cpus = env.get("cpus", 4)
        CTX.load = env.get("load", 0.5)
        CTX.env_reply = env.get("env_reply")
        CTX.clock_now = env.get("clock", 1.7e9)
        CTX.clock_step = env.get("clock_step", 1e-6)
        CTX.clock_reads = 0
        CTX.clock_jumps = {int(k): v for k, v in env.get("jumps", {}).items()}
        CTX.mono = 0.0
        CTX.probe = self.on_probe
        CTX.hook_fault = None
        sys.stderr = SimStream()
        sys.stdout = SimStream()
        warnings.resetwarnings()
        warnings.simplefilter("default")
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "PYTHONWARNINGS", "TZ"):
            os.environ.pop(k, None)  # were needed at start-up only; code under test may set them
        reseed_globals(CTX.entropy_key)
        memory.use(CTX.entropy_key)

    def on_probe(self, name, payload):
        self.probes.append((name, payload))

    # -- pumping the pools ------------------------------------------------------------------------
    def enabled(self):
        ev = []
        for p in self.pools:
            if not p.dead:
                ev.extend(p.enabled())
        return ev

    def pump_one(self, deadline=None):
        ev = self.enabled()
        if not ev:  # every runnable thing is stalled: time passes until the first stall ends, or the caller's patience
            late = [x for p in self.pools if not p.dead for x in p.stalled()]
            if not late:
                return False
            first = min(late, key=lambda x: x.wake)
            if deadline is not None and deadline < first.wake:
                return False
            CTX.advance(max(0.0, first.wake - CTX.mono))
            first.stall = 0
            ev = self.enabled()
            if not ev:
                return False
        self.step()
        e = ev[self.choose(len(ev))]
        self.elsewhere = True  # in a thread of the pool, not the caller's
        try:
            e[0].do(e)
        finally:
            self.elsewhere = False
        if self.pending_interrupt:
            self.pending_interrupt = False
            raise KeyboardInterrupt()
        return True

    def wait(self, ready, timeout=None):
        """The caller blocks until ready(); the simulated rest of the system runs meanwhile."""
        deadline = None if timeout is None else CTX.mono + timeout
        while True:
            self.op_waits += 1
            f = self.fault("interrupt")
            if f is not None and self.op_waits >= f["wait"]:
                f["done"] = True
                self.fire(f)
                raise KeyboardInterrupt()
            if ready():
                return True
            if deadline is not None and CTX.mono >= deadline:
                return False
            if not self.pump_one(deadline):
                if deadline is not None:
                    CTX.advance(max(0.0, deadline - CTX.mono))
                    return bool(ready())
                self.event("hang")
                self.hung = True
                raise SimHang("nothing can run")


def reseed_globals(key):
    """Global generators of a process: a fixed, known state."""
    import numpy as np

    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:4], "big")
    random.seed(h)
    np.random.seed(h % (2**32))


# -- processes ------------------------------------------------------------------------------------
_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL, 0, 0, 0)


def send_msg(sock, obj):
    b = pickle.dumps(obj, protocol=5)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def recv_exact(sock, n):
    buf = bytearray()
    while len(buf) < n:
        part = sock.recv(min(1 << 20, n - len(buf)))
        if not part:
            raise EOFError
        buf += part
    return bytes(buf)


def recv_msg(sock):
    (n,) = struct.unpack("<Q", recv_exact(sock, 8))
    return pickle.loads(recv_exact(sock, n))


def forkcall(fn):
    """Run fn() in a forked process and return its value. Raises HarnessError if it dies or fails."""
    a, b = socket.socketpair()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            a.close()
            die_with_parent()
            try:
                out = ("ok", fn())
            except BaseException:
                import traceback

                out = ("err", traceback.format_exc())
            send_msg(b, out)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    b.close()
    try:
        out = recv_msg(a)
    except EOFError:
        out = ("dead", None)
    a.close()
    os.waitpid(pid, 0)
    if out[0] == "ok":
        return out[1]
    if out[0] == "dead":
        raise HarnessError("forked process died")
    raise HarnessError(out[1])


class Template:
    """A process forked before the run touched anything. It executes requests in forks of its pristine state."""

    def __init__(self, registry, image=None):
        self.registry = registry
        a, b = socket.socketpair()
        if image is not None:  # forked from another image of the interpreter
            image.template(b)
            b.close()
            self.sock = a
            return
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                die_with_parent()
                self._serve(b)
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    def _serve(self, sock):
        while True:
            try:
                msg, fds, _, _ = socket.recv_fds(sock, 4096, 1)
            except OSError:
                return
            if not msg:
                return
            req = pickle.loads(msg)
            if req[0] == "adopt":  # become a freshly spawned worker on the passed socket
                pid = os.fork()
                if pid == 0:
                    sock.close()
                    try:
                        die_with_parent()
                        conn = socket.socket(fileno=fds[0])
                        self.registry["worker"](conn, recv_msg(conn))
                    finally:
                        os._exit(0)
                for fd in fds:
                    os.close(fd)
                send_msg(sock, pid)
            elif req[0] == "call":
                conn = socket.socket(fileno=fds[0])
                name, args = recv_msg(conn)
                try:
                    out = ("ok", forkcall(lambda: self.registry[name](*args)))
                except HarnessError as e:
                    out = ("err", str(e))
                send_msg(conn, out)
                conn.close()

    def call(self, name, *args):
        a, b = socket.socketpair()
        socket.send_fds(self.sock, [pickle.dumps(("call",))], [b.fileno()])
        b.close()
        send_msg(a, (name, args))
        out = recv_msg(a)
        a.close()
        if out[0] != "ok":
            raise HarnessError(out[1])
        return out[1]

    def spawn_worker(self, init):
        a, b = socket.socketpair()
        socket.send_fds(self.sock, [pickle.dumps(("adopt",))], [b.fileno()])
        b.close()
        pid = recv_msg(self.sock)
        send_msg(a, init)
        return a, None  # not our child: reaped by the template's death


class Image:
    """Another pristine image of the interpreter, started by exec: it has other string hashes and other addresses.

    References and spawned workers come from there, as they would in a deployment. One image serves all runs of a check;
    requests are datagrams on a socket that all lanes share.
    """

    def __init__(self, argv, env):
        import subprocess

        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.proc = subprocess.Popen(argv + [str(b.fileno())], env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL)
        b.close()
        self.sock = a

    def ready(self):
        return self.sock.recv(64) == b"ready"

    def template(self, conn):
        socket.send_fds(self.sock, [pickle.dumps(("template", os.getpgid(0)))], [conn.fileno()])

    def drop(self, pgid):
        """The run is over: whatever still executes for it goes."""
        self.sock.sendall(pickle.dumps(("drop", pgid)))


IMAGE = None  # set by main.boot()


def serve_image(fd, registry):
    """Body of an image process."""
    die_with_parent()
    sock = socket.socket(fileno=fd)
    sock.sendall(b"ready")
    held = {}
    while True:
        msg, fds, _, _ = socket.recv_fds(sock, 4096, 1)
        if not msg:
            return
        what, pgid = pickle.loads(msg)
        if what == "template":
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    die_with_parent()
                    sock.close()
                    conn = socket.socket(fileno=fds[0])
                    t = Template.__new__(Template)
                    t.registry = registry
                    t._serve(conn)
                finally:
                    os._exit(0)
            for f in fds:
                os.close(f)
            held.setdefault(pgid, []).append(pid)
        else:
            for pid in held.pop(pgid, []):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    try:
                        os.kill(pid, signal.SIGKILL)  # has not made its group yet
                    except ProcessLookupError:
                        pass
                os.waitpid(pid, 0)
