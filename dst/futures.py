"""concurrent.futures and thread pools over the simulated pool, for trees that use those instead of multiprocessing.Pool."""
import concurrent.futures as cf
import concurrent.futures._base as base
import concurrent.futures.process
import concurrent.futures.thread
import multiprocessing
import multiprocessing.pool
import os

from dst import pool as simpool
from dst.pool import RUN, SimPool, Worker
from dst.seams import CTX


class SimThreadPool(SimPool):
    """Workers are threads of the caller: tasks taken together run interleaved, at instruction-level switch points."""

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)

    def _start_worker(self):
        w = Worker(self.sim.next_worker, None, None)
        self.sim.next_worker += 1
        self._pool.append(w)
        if self._initializer is not None:
            self._initializer(*self._initargs)
        return w

    def _kill_worker(self, w):
        w.alive = False

    def _do_feed(self, _):
        seq = self._taskqueue.seqs[0]
        try:
            task = next(seq[0])
        except StopIteration:
            self._taskqueue.seqs.pop(0)
            if seq[1]:
                seq[1]((seq[2][1] if seq[2] else -1) + 1)
            return
        seq[2] = task
        self._queue.append((self.sent, task))
        self.sim.event("feed", self.ordinal, self.sent)
        self.sent += 1

    def _do_take(self, i):
        from dst.threads import Lockstep

        idle = [w for w in self._pool if w.alive and not w.busy]
        idle.sort(key=lambda w: w is not self._pool[i])
        n = 1 + self.sim.choose(min(len(idle), len(self._queue)))
        batch = [(idle[k], *self._queue.pop(0)) for k in range(n)]

        def body(task):
            job, idx, func, args, kwds = task

            def go():
                try:
                    return job, idx, (True, func(*args, **kwds))
                except Exception as e:
                    return job, idx, (False, e)

            return go

        for w, no, _ in batch:
            w.busy = True
            w.tasks += 1
            self.taken += 1
            self.sim.event("take", self.ordinal, no, w.id - self._pool[0].id)
            self.sim.count("tasks")
        bodies = [body(t) for _, _, t in batch]
        out = Lockstep(self.sim, bodies).run() if len(bodies) > 1 else [bodies[0]()]
        for (w, no, _), res in zip(batch, out):
            w.result = res
            s = self.sim.fault("stall", pool=self.ordinal, task=no)
            if s is not None:
                s["done"] = True
                self.sim.fire(s)
                w.stall, w.wake = s["steps"], CTX.mono + s.get("secs", 3600.0)

    def _do_finish(self, i):
        w = self._pool[i]
        (job, idx, obj), w.result, w.busy = w.result, None, False
        self.sim.event("finish", self.ordinal, idx)
        try:
            self._cache[job]._set(idx, obj)
        except KeyError:
            pass


class SimFuture(base.Future):
    def done(self):
        simpool.yield_point()
        return super().done()

    def _settled(self):
        return super().done()

    def result(self, timeout=None):
        if not CTX.sim.wait(self._settled, timeout):
            raise base.TimeoutError()
        return super().result(0)

    def exception(self, timeout=None):
        if not CTX.sim.wait(self._settled, timeout):
            raise base.TimeoutError()
        return super().exception(0)


class SimExecutor(base.Executor):
    """Submitted calls become tasks of a simulated pool; a worker's death breaks the executor, as in CPython."""

    threads = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None, **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._n = max_workers or os.cpu_count() or 1
        self._args = (initializer, initargs)
        self._context = mp_context
        self._max = max_tasks_per_child
        self._pool = None
        self._down = False
        self._broken = None
        self._open = []

    def _start(self):
        if self._pool is None:
            if self.threads:
                self._pool = SimThreadPool(self._n, *self._args)
            else:
                self._pool = SimPool(self._n, *self._args, self._max, self._context)
            self._pool.on_death = self._death

    def _death(self):
        self._broken = cf.process.BrokenProcessPool("A process in the process pool was terminated abruptly")
        for f in self._open:
            if not f._settled():
                f.set_exception(self._broken)
        self._pool.terminate()

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise self._broken
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self._start()
        f = SimFuture()

        def ok(v):
            if not f._settled():
                f.set_result(v)

        def err(e):
            if not f._settled():
                f.set_exception(e)

        self._open.append(f)
        self._pool.apply_async(fn, args, kwargs, callback=ok, error_callback=err)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        if cancel_futures:
            for f in self._open:
                f.cancel()
        p = self._pool
        if p is None or p._state != RUN:
            return
        if cancel_futures:
            p.terminate()
            return
        p.close()
        if wait:
            p.join()


class SimThreadExecutor(SimExecutor):
    threads = True

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


def as_completed(fs, timeout=None):
    left = list(dict.fromkeys(fs))
    while left:
        if not CTX.sim.wait(lambda: any(f._settled() for f in left), timeout):
            raise base.TimeoutError()
        for f in [f for f in left if f._settled()]:
            left.remove(f)
            yield f


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)

    def ready():
        done = [f for f in fs if f._settled()]
        if return_when == cf.FIRST_COMPLETED:
            return bool(done) or not fs
        if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and base.Future.exception(f, 0) for f in done):
            return True
        return len(done) == len(fs)

    CTX.sim.wait(ready, timeout)
    done = {f for f in fs if f._settled()}
    return base.DoneAndNotDoneFutures(done, fs - done)


def install():
    for m in (cf, cf.process):
        m.ProcessPoolExecutor = SimExecutor
    for m in (cf, cf.thread):
        m.ThreadPoolExecutor = SimThreadExecutor
    for m in (cf, base):
        m.as_completed, m.wait = as_completed, wait
    multiprocessing.pool.ThreadPool = SimThreadPool
