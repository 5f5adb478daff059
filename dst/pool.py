"""SimPool: CPython's pool front end and worker loop over simulated handler threads, queues and process start-up.

Real code: multiprocessing.pool.Pool.map/imap/starmap/apply..., chunking, MapResult/IMapIterator, worker().
Simulated: when the task handler pickles the next task, which idle worker takes the head of the queue, when a
worker's result reaches the caller, worker death and replacement, start-up failures.
Workers are real processes run in lockstep (the caller waits while one of them computes).
"""
import errno
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.process
import os
import pickle
import signal
import socket
import sys
import threading
import types
import warnings
import weakref
from multiprocessing.reduction import ForkingPickler

from dst import memory
from dst import sim as simmod
from dst.seams import CTX
from dst.sim import SimHang, recv_msg, send_msg

mpp = multiprocessing.pool
RealPool = mpp.Pool
RUN, CLOSE, TERMINATE = mpp.RUN, mpp.CLOSE, mpp.TERMINATE


ALL = weakref.WeakSet()  # pools not yet collected


class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        yield_point()
        return self._flag

    def set(self):
        self._flag = True

    def wait(self, timeout=None):
        return CTX.sim.wait(lambda: self._flag, timeout)


def yield_point():
    """Other threads of the caller's process (task and result handlers) may have run before we got here."""
    sim = CTX.sim
    if sim is not None and not sim.elsewhere:
        for _ in range(sim.choose(3, bias=0.6)):
            if not sim.pump_one(CTX.mono):
                break


class SimCondition:
    def __init__(self, lock=None):
        self._n = 0

    def __enter__(self):
        yield_point()
        return True

    def __exit__(self, *a):
        return None

    def notify(self, n=1):
        self._n += 1

    notify_all = notify

    def wait(self, timeout=None):
        seen = self._n
        return CTX.sim.wait(lambda: self._n != seen, timeout)


class TaskFeed:
    """Stands for Pool._taskqueue: job sequences waiting for the task handler thread."""

    def __init__(self, pool):
        self.pool = pool
        self.seqs = []

    def put(self, item):
        if item is not None:
            self.seqs.append([iter(item[0]), item[1], None])

    def empty(self):
        return not self.seqs


class Worker:
    def __init__(self, wid, sock, pid):
        self.id = wid
        self.sock = sock
        self.pid = pid
        self.result = None  # bytes of a finished computation not yet delivered, or "dead"
        self.busy = False
        self.stall = 0
        self.wake = 0.0  # when a stall ends at the latest
        self.alive = True
        self.tasks = 0
        self.name = f"SimPoolWorker-{wid}"
        self.exitcode = None
        self.daemon = True

    def is_alive(self):
        return self.alive


class SimPool(RealPool):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        sim = CTX.sim
        self._pool = []
        self._state = "INIT"
        self.dead = False
        self.on_death = None
        self.deaf = False  # its results can no longer be read
        if CTX.role == "worker":
            raise AssertionError("daemonic processes are not allowed to have children")
        if sim is None:
            raise simmod.HarnessError("pool used outside a simulated run")
        self.sim = sim
        self._ctx = context or multiprocessing.get_context()
        self._taskqueue = TaskFeed(self)
        self._queue = []  # pickled tasks on the way to the workers
        self._cache = {}
        self._change_notifier = None
        self._maxtasksperchild = maxtasksperchild
        self._initializer = initializer
        self._initargs = initargs
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None:
            if not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0:
                raise ValueError("maxtasksperchild must be a positive int or None")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._processes = processes
        name = getattr(self._ctx, "_name", None)
        self.method = name if (context is not None and name in ("spawn", "forkserver", "fork")) else sim.start_method
        if isinstance(context, multiprocessing.context.DefaultContext):
            self.method = sim.start_method
        self.ordinal = sim.op_pools
        self.op = sim.op_no
        sim.op_pools += 1
        self.sent = 0
        self.taken = 0
        sim.event("pool", self.ordinal, min(processes, 64), self.method)
        sim.count("pools")
        f = sim.fault("poolstart", pool=self.ordinal)
        started = processes
        if f is not None:
            started = min(f.get("after", 0), processes - 1)
        for _ in range(min(started, 64)):
            self._start_worker()
        if f is not None:
            f["done"] = True
            sim.fire(f)
            self._kill_workers()
            self.dead = True
            code = f.get("errno", errno.EAGAIN)
            raise OSError(code, os.strerror(code))
        sim.pools.append(self)
        ALL.add(self)
        self._state = RUN
        sim.peak = max(sim.peak, sum(p._processes for p in sim.pools if not p.dead and p.op == sim.op_no))

    # -- workers ----------------------------------------------------------------------------------
    def _start_worker(self):
        sim = self.sim
        wid = sim.next_worker
        sim.next_worker += 1
        pids = sim.env.get("pids", "fresh")
        if pids == "reused":
            pid = 2000 + len(self._pool)
        else:
            pid = sim.next_pid
            sim.next_pid += 1
        init = {
            "wid": wid,
            "entropy": f"{sim.seed}/worker/{wid}",
            "pid": pid,
            "ppid": CTX.pid,
            "cpus": CTX.cpus,
            "load": CTX.load,
            "env_reply": CTX.env_reply,
            "clock": CTX.clock_now,
            "clock_step": CTX.clock_step,
            "maxtasks": self._maxtasksperchild,
        }
        if self.method == "fork":
            a, b = socket.socketpair()
            ospid = os.fork()
            if ospid == 0:
                try:
                    a.close()
                    simmod.die_with_parent()
                    init["fork"] = True
                    init["initializer"] = (self._initializer, self._initargs)
                    for p in sim.pools:
                        for w in p._pool:
                            if w.sock is not None:
                                w.sock.close()
                    worker_main(b, init)
                finally:
                    os._exit(0)
            b.close()
            sock = a
        else:
            init["fork"] = False
            init["initializer"] = bytes(ForkingPickler.dumps((self._initializer, self._initargs)))
            sock, ospid = sim.template.spawn_worker(init)
        w = Worker(wid, sock, ospid)
        self._pool.append(w)
        return w

    def _kill_worker(self, w):
        if w.alive:
            w.alive = False
            try:
                w.sock.close()
            except OSError:
                pass
            if w.pid is not None:
                try:
                    os.kill(w.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.waitpid(w.pid, 0)
                except ChildProcessError:
                    pass

    def _kill_workers(self):
        for w in self._pool:
            self._kill_worker(w)

    # -- the simulated rest of the pool -----------------------------------------------------------
    def enabled(self):
        ev = []
        if self._taskqueue.seqs and self._state != TERMINATE:
            ev.append((self, "feed", -1))
        if self._queue:
            for i, w in enumerate(self._pool):
                if w.alive and not w.busy:
                    ev.append((self, "take", i))
        for i, w in enumerate(self._pool):
            if w.busy and w.result is not None and w.stall <= 0:
                ev.append((self, "finish", i))
        return ev

    def stalled(self):
        return [w for w in self._pool if w.busy and w.stall > 0]

    def do(self, e):
        kind, i = e[1], e[2]
        for w in self._pool:
            if w.stall > 0:
                w.stall = 0 if w.wake <= CTX.mono else w.stall - 1
        getattr(self, "_do_" + kind)(i)

    def _do_feed(self, _):
        seq = self._taskqueue.seqs[0]
        try:
            task = next(seq[0])
        except StopIteration:
            self._taskqueue.seqs.pop(0)
            if seq[1]:
                idx = seq[2][1] if seq[2] else -1
                seq[1](idx + 1)
            self.sim.event("fed", self.ordinal)
            return
        seq[2] = task
        try:
            data = bytes(ForkingPickler.dumps(task))
        except Exception as e:
            job, idx = task[:2]
            self.sim.event("unpicklable", self.ordinal, idx)
            try:
                self._cache[job]._set(idx, (False, e))
            except KeyError:
                pass
            return
        self._queue.append((self.sent, data))
        self.sim.event("feed", self.ordinal, self.sent)
        self.sent += 1

    def _do_take(self, i):
        w = self._pool[i]
        n, data = self._queue.pop(0)
        sim = self.sim
        w.busy = True
        w.tasks += 1
        self.taken += 1
        sim.event("take", self.ordinal, n, w.id - self._pool[0].id)
        sim.count("tasks")
        fault = sim.fault("kill", pool=self.ordinal, task=n)
        if fault is not None:
            fault["done"] = True
            sim.fire(fault)
            self._kill_worker(w)
            w.result = "dead"
        else:
            fault = sim.fault("trial", pool=self.ordinal, task=n)
            if fault is None:
                fault = sim.fault("decomposer", pool=self.ordinal, task=n)
            try:
                send_msg(w.sock, ("task", data, fault))
                while True:
                    m = recv_msg(w.sock)
                    if m[0] == "probe":
                        sim.on_probe(m[1], m[2])
                    elif m[0] == "fired":
                        if not fault.get("done"):
                            sim.fire(fault)
                        fault["done"] = True
                    elif m[0] == "harness":
                        raise simmod.HarnessError(m[1])
                    else:
                        w.result = m[1]
                        break
            except (EOFError, OSError):
                self._kill_worker(w)
                w.result = "dead"
        s = sim.fault("stall", pool=self.ordinal, task=n)
        if s is not None:
            s["done"] = True
            sim.fire(s)
            w.stall, w.wake = s["steps"], CTX.mono + s.get("secs", 3600.0)

    def _do_finish(self, i):
        w = self._pool[i]
        data, w.result, w.busy = w.result, None, False
        sim = self.sim
        if data == "dead":
            sim.event("death", self.ordinal)
            sim.count("worker_deaths")
            w.exitcode = -9
            del self._pool[i]
            if self.on_death is not None:
                self.on_death()
                return
            if self._state == RUN or self._cache:
                self._start_worker()
            return
        try:
            job, idx, obj = pickle.loads(data)
        except Exception as e:
            # CPython's result handler thread ends with this error; an executor's manager declares the executor broken
            sim.event("unreadable result", self.ordinal, type(e).__name__)
            sim.count("unreadable_results")
            self.deaf = True
            if self.on_death is not None:
                self.on_death()
                return
        if not self.deaf:
            sim.event("finish", self.ordinal, idx)
            try:
                self._cache[job]._set(idx, obj)
            except KeyError:
                pass
        if self._maxtasksperchild and w.tasks >= self._maxtasksperchild:
            self._kill_worker(w)
            del self._pool[i]
            if self._state == RUN or self._cache:
                self._start_worker()

    # -- pool API that touches handler threads ----------------------------------------------------
    def close(self):
        if self._state == RUN:
            self._state = CLOSE
            self.sim.event("close", self.ordinal)

    def terminate(self):
        if self._state != TERMINATE:
            self.sim.event("terminate", self.ordinal)
        self._state = TERMINATE
        if self.deaf and self._cache and self.on_death is None and not self.sim.hung:
            raise AssertionError("Cannot have cache with result_handler not alive")
        self._kill_workers()
        self._taskqueue.seqs.clear()
        self._queue.clear()
        for w in self._pool:
            w.busy = False
            w.result = None
        self.dead = True

    def _idle(self):
        return not self._cache and not self._queue and not self._taskqueue.seqs

    def join(self):
        if self._state == RUN:
            raise ValueError("Pool is still running")
        if self._state not in (CLOSE, TERMINATE):
            raise ValueError("In unknown state")
        if self._state == CLOSE:
            self.sim.wait(self._idle)
        self._kill_workers()
        self.dead = True

    def __del__(self, _warn=warnings.warn, RUN=RUN):
        pass

    def __repr__(self):
        return f"<SimPool state={self._state} pool_size={len(self._pool)}>"


class InQueue:
    def __init__(self, sock):
        self.sock = sock

    def get(self):
        m = recv_msg(self.sock)
        if m[0] == "exit":
            return None
        from dst import faults

        task = pickle.loads(m[1])
        faults.arm_task(m[2], task)
        return task


class OutQueue:
    def __init__(self, sock):
        self.sock = sock

    def put(self, obj):
        data = bytes(ForkingPickler.dumps(obj))
        from dst import faults

        if faults.disarm_task():
            send_msg(self.sock, ("fired",))
        send_msg(self.sock, ("result", data))


def worker_main(sock, init):
    """Body of a worker process."""
    from dst import faults

    CTX.role = "worker"
    CTX.active = True
    CTX.sim = None
    CTX.entropy_key = init["entropy"]
    CTX.entropy_n = 0
    CTX.pid = init["pid"]
    CTX.ppid = init["ppid"]
    CTX.cpus = init["cpus"]
    CTX.load = init["load"]
    CTX.env_reply = init["env_reply"]
    CTX.clock_now = init["clock"]
    CTX.clock_step = init["clock_step"]
    CTX.probe = lambda name, payload: send_msg(sock, ("probe", name, payload))
    CTX.hook_fault = None
    CTX.hook_fired = False
    faults.reset()
    memory.use(CTX.entropy_key)
    import random

    random.seed()  # as CPython does after fork
    if not init["fork"]:
        simmod.reseed_globals(CTX.entropy_key)
        from dst.seams import SimStream

        sys.stderr = SimStream()
        sys.stdout = SimStream()
    p = multiprocessing.Process(name=f"SimPoolWorker-{init['wid'] + 1}")
    p._config["daemon"] = True
    p._identity = (init["wid"] + 1,)
    multiprocessing.process._current_process = p
    initializer, initargs = init["initializer"] if init["fork"] else pickle.loads(init["initializer"])
    try:
        mpp.worker(InQueue(sock), OutQueue(sock), initializer, initargs, init["maxtasks"], True)
    except SystemExit:
        pass
    except (KeyboardInterrupt, SimHang):
        pass
    except simmod.HarnessError as e:
        send_msg(sock, ("harness", str(e)))


def make_pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    """Returns a process pool object"""
    return SimPool(processes, initializer, initargs, maxtasksperchild, context=self.get_context())


def install():
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    multiprocessing.Pool = make_pool
    multiprocessing.context._default_context.Pool = make_pool
    mpp.Pool = SimPool
    shim = types.SimpleNamespace(**{k: getattr(threading, k) for k in dir(threading) if not k.startswith("__")})
    shim.Event = SimEvent
    shim.Condition = SimCondition
    mpp.threading = shim
    from dst import futures

    futures.install()
