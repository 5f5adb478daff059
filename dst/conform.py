"""Small programs over multiprocessing pools and executors, run both on CPython's own and on the simulated ones."""
import concurrent.futures
import multiprocessing
import multiprocessing.pool


class Unpicklable:
    def __reduce__(self):
        raise TypeError("no")


def sq(x):
    return x * x


class Fussy(Exception):
    def __init__(self, a, b):
        super().__init__(a)


def add(a, b=10):
    return a + b


def bad_at_5(x):
    if x == 5:
        raise ValueError("five")
    return x


def returns_unpicklable(x):
    return Unpicklable() if x == 2 else x


def fussy_at_2(x):
    if x == 2:
        raise Fussy("a", "b")
    return x


def unreadable(p):
    r = p.map_async(fussy_at_2, range(6), 1)
    r.wait(3)
    return r.ready()


STATE = {}


def init(v):
    STATE["v"] = v


def get_state(_):
    return STATE["v"]


def with_pool(fn, **kw):
    def run():
        p = multiprocessing.Pool(**kw)
        try:
            return fn(p)
        finally:
            p.terminate()
            p.join()

    return run


def gen_fail():
    yield 1
    yield 2
    raise RuntimeError("source")


def use_after_close(p):
    p.close()
    return p.map(sq, [1])


def join_running(p):
    p.join()


def close_join(p):
    r = p.map_async(sq, range(7))
    p.close()
    p.join()
    return r.ready(), r.successful(), r.get()


def ctx_exit():
    with multiprocessing.Pool(2) as p:
        out = p.map(sq, range(5))
    try:
        p.map(sq, [1])
        late = None
    except ValueError as e:
        late = str(e)
    return out, late


def timeouts(p):
    it = p.imap(sq, [3, 4])
    return it.next(timeout=30), it.next(timeout=30)


def exhausted(p):
    it = p.imap(sq, [3])
    out = [next(it)]
    try:
        next(it)
    except StopIteration:
        out.append("stop")
    return out


def callbacks(p):
    got, errs = [], []
    p.apply_async(add, (1, 2), callback=got.append).get()
    try:
        p.apply_async(bad_at_5, (5,), error_callback=errs.append).get()
    except ValueError as e:
        errs.append(e)
    return got, [str(e) for e in errs]


def imap_err(p):
    out = []
    it = p.imap(bad_at_5, range(8))
    while True:
        try:
            out.append(next(it))
        except ValueError as e:
            out.append(str(e))
        except StopIteration:
            return out


def unordered_err(p):
    out = []
    it = p.imap_unordered(bad_at_5, range(8))
    while True:
        try:
            out.append(str(next(it)))
        except ValueError as e:
            out.append(str(e))
        except StopIteration:
            return sorted(out)


def executor(cls, fn, **kw):
    def run():
        with cls(**kw) as e:
            return fn(e)

    return run


def ex_map(e):
    return list(e.map(add, range(9), range(9)))


def ex_err(e):
    return list(e.map(bad_at_5, range(9)))


def ex_submit(e):
    fs = [e.submit(bad_at_5, i) for i in range(8)]
    done = sorted(str(f.exception() or f.result()) for f in concurrent.futures.as_completed(fs))
    d, n = concurrent.futures.wait(fs)
    return done, len(d), len(n)


def ex_first(e):
    fs = [e.submit(bad_at_5, i) for i in range(8)]
    concurrent.futures.wait(fs, return_when=concurrent.futures.FIRST_EXCEPTION)
    return str(fs[5].exception())


def ex_after(cls):
    def run():
        e = cls(2)
        e.shutdown()
        return e.submit(sq, 2)

    return run


PPE, TPE, TP = concurrent.futures.ProcessPoolExecutor, concurrent.futures.ThreadPoolExecutor, multiprocessing.pool.ThreadPool


def thread_pool():
    with TP(3) as p:
        return p.map(sq, range(9)), sorted(p.imap_unordered(sq, range(5)))


def programs():
    P = with_pool
    return {
        "map": P(lambda p: p.map(sq, range(23)), processes=3),
        "map-chunk": P(lambda p: p.map(sq, range(23), chunksize=4), processes=2),
        "map-empty": P(lambda p: p.map(sq, []), processes=2),
        "map-generator": P(lambda p: p.map(sq, (i for i in range(6))), processes=2),
        "map-fail": P(lambda p: p.map(bad_at_5, range(9)), processes=3),
        "map-fail-chunk": P(lambda p: p.map(bad_at_5, range(9), 4), processes=3),
        "starmap": P(lambda p: p.starmap(add, [(1, 2), (3, 4), (5,)]), processes=2),
        "imap": P(lambda p: list(p.imap(sq, range(11))), processes=3),
        "imap-chunk": P(lambda p: list(p.imap(sq, range(11), 3)), processes=3),
        "imap-unordered": P(lambda p: sorted(p.imap_unordered(sq, range(11))), processes=3),
        "imap-unordered-chunk": P(lambda p: sorted(p.imap_unordered(sq, range(11), 4)), processes=3),
        "imap-fail": P(imap_err, processes=3),
        "imap-unordered-fail": P(unordered_err, processes=3),
        "imap-source-fails": P(lambda p: list(p.imap(sq, gen_fail())), processes=2),
        "imap-bad-chunk": P(lambda p: list(p.imap(sq, [1], 0)), processes=2),
        "apply": P(lambda p: p.apply(add, (1,), {"b": 5}), processes=2),
        "apply-fail": P(lambda p: p.apply(bad_at_5, (5,)), processes=2),
        "callbacks": P(callbacks, processes=2),
        "unpicklable-argument": P(lambda p: p.map(sq, [1, Unpicklable(), 3], 1), processes=2),
        "unpicklable-result": P(lambda p: p.map(returns_unpicklable, range(4), 1), processes=2),
        "unreadable-error": P(unreadable, processes=2),
        "unpicklable-function": P(lambda p: p.map(lambda x: x, range(4)), processes=2),
        "initializer": P(lambda p: p.map(get_state, range(4)), processes=2, initializer=init, initargs=(7,)),
        "maxtasks": P(lambda p: p.map(sq, range(9), 1), processes=2, maxtasksperchild=2),
        "zero-processes": P(lambda p: None, processes=0),
        "bad-initializer": P(lambda p: None, processes=2, initializer=3),
        "use-after-close": P(use_after_close, processes=2),
        "join-running": P(join_running, processes=2),
        "close-join": P(close_join, processes=2),
        "with": ctx_exit,
        "next-timeout": P(timeouts, processes=2),
        "exhausted": P(exhausted, processes=2),
        "thread-pool": thread_pool,
        "executor-map": executor(PPE, ex_map, max_workers=2),
        "executor-map-chunk": executor(PPE, lambda e: list(e.map(sq, range(9), chunksize=4)), max_workers=2),
        "executor-fail": executor(PPE, ex_err, max_workers=2),
        "executor-submit": executor(PPE, ex_submit, max_workers=2),
        "executor-first": executor(PPE, ex_first, max_workers=2),
        "executor-late": ex_after(PPE),
        "threads-map": executor(TPE, ex_map, max_workers=2),
        "threads-fail": executor(TPE, ex_err, max_workers=2),
        "threads-submit": executor(TPE, ex_submit, max_workers=2),
        "threads-late": ex_after(TPE),
    }


def outcome(fn):
    try:
        return ["value", repr(fn())]
    except Exception as e:
        text = str(e).split(" at 0x")[0]
        if type(e).__name__ == "MaybeEncodingError":
            text = ""
        return ["raised", type(e).__name__, text[:60]]


if __name__ == "__main__":
    import json
    import sys

    sys.modules["dst.conform"] = sys.modules["__main__"]
    from dst import conform  # the functions must be importable under their own name in the workers

    multiprocessing.set_start_method("fork")
    print(json.dumps({k: outcome(f) for k, f in conform.programs().items()}))
