"""Seeded search: many runs in parallel lanes, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import socket
import sys
import traceback

from dst import seams
from dst.seams import REAL

RUN_WALL = float(os.environ.get("DST_RUN_WALL", "90"))  # seconds of wall time after which a run counts as stuck
LANES = 8


def derive(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:7], "big")


def execute(prop, plan, seed, script=None):
    """One run in the current (fresh, forked) process. Returns a JSON-able result."""
    from dst import faults, sim as simmod, world

    chooser = simmod.Chooser(seed=derive(seed, "choices"), script=script)
    s = simmod.Sim(seed, chooser, plan.get("env"))
    s.template = simmod.Template(world.REGISTRY, simmod.IMAGE)
    s.enter()
    from dst.seams import CTX

    t0 = CTX.mono
    viol = None
    known = []
    s.known = known
    try:
        prop.run(plan, s)
    except simmod.Violation as v:
        viol = {"class": v.klass, "detail": str(v.detail)[:600]}
    except Exception as e:
        # an accessor or setting of the code under test that fails outside a judged call
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if not os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(seams.repo_root() + os.sep):
            raise
        viol = {"class": "crash", "detail": "".join(traceback.format_exception(e))[-600:]}
    return {
        "violation": viol,
        "known": known,
        "digest": s.digest(),
        "counts": s.counts,
        "steps": s.steps,
        "max_steps_op": s.max_steps_op,
        "sim_time": CTX.mono - t0,
        "choices": chooser.taken,
        "events": len(s.log),
        "log": s.log if os.environ.get("DST_LOG") else None,
    }


class Job:
    """execute() in a forked process group of its own, under a wall-clock watchdog."""

    def __init__(self, prop, plan, seed, script=None, wall=None):
        self.wall = wall or RUN_WALL
        self.script = script
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                os.setsid()
                from dst import sim as simmod

                simmod.die_with_parent()
                try:
                    out = execute(prop, plan, seed, script)
                except BaseException:
                    out = {"harness": traceback.format_exc()}
                b.sendall(pickle.dumps(out))
                b.shutdown(socket.SHUT_WR)
            finally:
                os._exit(0)
        b.close()
        self.sock, self.pid = a, pid
        self.buf = bytearray()
        self.end = REAL.monotonic() + self.wall
        self.result = None

    def poll(self):
        """Read what is there. True when the job has ended."""
        part = self.sock.recv(1 << 20)
        if part:
            self.buf += part
            return False
        self._finish(False)
        return True

    def expired(self):
        if REAL.monotonic() > self.end:
            self._finish(True)
            return True
        return False

    def _finish(self, stuck):
        self.sock.close()
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(self.pid, 0)
        from dst import sim as simmod

        if simmod.IMAGE is not None:
            simmod.IMAGE.drop(self.pid)
        if stuck:
            self.result = {
                "violation": {"class": "stuck", "detail": f"the run made no end within {self.wall:.0f} s of wall time"},
                "known": [],
                "digest": "stuck",
                "counts": {},
                "steps": 0,
                "max_steps_op": 0,
                "sim_time": 0.0,
                "choices": self.script or [],
                "events": 0,
            }
        elif not self.buf:
            self.result = {"harness": "run process died without a result"}
        else:
            self.result = pickle.loads(bytes(self.buf))


def isolated(prop, plan, seed, script=None, wall=None):
    return isolated_many(prop, [(plan, script)], seed, wall)[0]


def isolated_many(prop, cases, seed, wall=None, width=LANES):
    """Run the cases, at most `width` at a time."""
    jobs = [None] * len(cases)
    todo = list(range(len(cases)))
    live = {}
    while todo or live:
        while todo and len(live) < width:
            k = todo.pop(0)
            jobs[k] = Job(prop, cases[k][0], seed, cases[k][1], wall)
            live[jobs[k].sock] = jobs[k]
        r, _, _ = select.select(list(live), [], [], 0.5)
        for c in r:
            if live[c].poll():
                del live[c]
        for c in [c for c, j in live.items() if j.expired()]:
            del live[c]
    return [j.result for j in jobs]


def gen_plan(prop, seed, tier):
    plan = prop.gen(random.Random(derive(seed, "plan")), tier)
    if prop.echoes:
        echo(random.Random(derive(seed, "echo")), plan)
    return plan


def echo(r, plan):
    """Make a later call nearly the same as an earlier one: what remembers too much between calls confuses those."""
    ops = [o for key in ("pre", "ops", "calls") for o in plan.get(key, []) if "sig" in o.get("call", ())]
    ops += [o for o in (plan.get("final"), plan) if o and "sig" in o.get("call", ())]
    if len(ops) < 2 or r.random() > 0.4:
        return
    b = r.randrange(1, len(ops))
    a, b = ops[r.randrange(b)], ops[b]
    if a.get("i", 0) != b.get("i", 0):
        b["call"]["sig"]["n"] = min(a["call"]["sig"]["n"], 64)
        return
    keep = {k: v for k, v in b["call"].items() if k not in ("sig", "t", "max_imf")}
    if (a["call"].get("t") or {}).get("k") in ("short", "dup"):
        keep["t"] = b["call"].get("t")
    b["call"] = {**json.loads(json.dumps(a["call"])), **keep}
    x = r.randrange(5)
    if x == 0:
        b["call"]["sig"]["s"] = r.randrange(10**6)
    elif x == 1:
        b["call"]["sig"]["k"] = r.choice(["mix", "chirp", "walk", "noise"])
    elif x == 2:
        b["call"]["max_imf"] = r.choice([1, 2])
    if a.get("seed") is not None and "seed" in b and r.random() < 0.7:
        b["seed"] = a["seed"]


def lane(prop, seeds, tier, sock, deadline, lane_no, lanes):
    for i in range(lane_no, len(seeds), lanes):
        if REAL.monotonic() > deadline:
            break
        seed = seeds[i]
        plan = gen_plan(prop, seed, tier)
        t0 = REAL.monotonic()
        res = isolated(prop, plan, seed)
        res["i"], res["seed"], res["wall"] = i, seed, REAL.monotonic() - t0
        bad = bool(res.get("violation") or res.get("harness"))
        if not bad:
            res["nchoices"] = len(res.pop("choices"))
            if i >= 3:
                plan = None
        res["plan"] = plan
        data = pickle.dumps(res)
        try:
            sock.sendall(len(data).to_bytes(8, "big") + data)
        except OSError:
            return
        if bad:
            return


def search(prop, seeds, tier, budget):
    """Run the seeds over LANES processes. Returns the list of results (order of completion)."""
    deadline = REAL.monotonic() + budget
    lanes = min(LANES, len(seeds))
    conns, pids = [], []
    for k in range(lanes):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for c in conns:
                    c.close()
                from dst import sim as simmod

                simmod.die_with_parent()
                lane(prop, seeds, tier, b, deadline, k, lanes)
            except BaseException:
                traceback.print_exc(file=REAL.stderr)
                code = 4
            finally:
                os._exit(code)
        b.close()
        conns.append(a)
        pids.append(pid)
    results = []
    bufs = {c: bytearray() for c in conns}
    live = set(conns)
    stop_at = None
    while live:
        if stop_at is not None and REAL.monotonic() > stop_at:
            break
        r, _, _ = select.select(list(live), [], [], 1.0)
        for c in r:
            part = c.recv(1 << 20)
            if not part:
                live.discard(c)
                continue
            buf = bufs[c]
            buf += part
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + n:
                    break
                res = pickle.loads(bytes(buf[8 : 8 + n]))
                del buf[: 8 + n]
                results.append(res)
                if res.get("violation") and stop_at is None:
                    stop_at = REAL.monotonic() + 2.0  # let the other lanes finish what they are at
    bad_lane = False
    for c, pid in zip(conns, pids):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 4:
            bad_lane = True
        c.close()
    if bad_lane:
        results.append({"harness": "a lane failed", "i": -1})
    return results


# -- minimisation ----------------------------------------------------------------------------------
DROP_LISTS = ("ops", "faults", "pre", "post", "calls", "extra", "cont", "bodies_ops")
DROP_KEYS = ("set", "t", "load", "env_reply", "jumps", "progress", "layout", "jset", "config", "noise_kind", "noise_width", "separate_trends",
             "spline_kind", "extrema_detection", "FIXE", "FIXE_H", "nbsym", "std_thr", "svar_thr", "energy_ratio_thr",
             "total_power_thr", "range_thr", "epsilon", "noise_scale", "beta_progress", "swap", "clock_step", "pids", "start")
SHRINK_INT = {"trials": 1, "n": 12, "processes": 1, "cpus": 1, "task": 0, "max_imf": -1, "wait": 1, "steps": 1}


def candidates(plan):
    """Simpler plans, biggest simplifications first."""
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in DROP_LISTS and isinstance(v, list):
                    for i in range(len(v)):
                        out.append((0, ("del_item", path + [k], i)))
                if k in DROP_KEYS and v is not None:
                    out.append((1, ("del_key", path, k)))
                if k in SHRINK_INT and isinstance(v, int) and not isinstance(v, bool) and v > SHRINK_INT[k]:
                    for nv in {SHRINK_INT[k], (v + SHRINK_INT[k]) // 2, v - 1}:
                        if nv != v:
                            out.append((2, ("set", path, k, nv)))
                walk(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                walk(v, path + [i])

    walk(plan, [])
    out.sort(key=lambda x: x[0])
    for _, act in out:
        new = json.loads(json.dumps(plan))
        node = new
        for p in act[1]:
            node = node[p]
        if act[0] == "del_item":
            del node[act[2]]
        elif act[0] == "del_key":
            if act[2] in ("t",):
                node[act[2]] = None
            else:
                del node[act[2]]
        else:
            node[act[2]] = act[3]
        yield new


def par_eval(prop, cases, seed, klass, wall):
    """Index and result of the first case (in order) that still fails the same way."""
    for i, r in enumerate(isolated_many(prop, cases, seed, wall)):
        v = r.get("violation")
        if v and v["class"] == klass:
            return i, r
    return None, None


def minimise(prop, plan, seed, res, budget=60.0):
    end = REAL.monotonic() + budget
    klass = res["violation"]["class"]
    script = list(res["choices"])
    best = (plan, script, res)
    if klass == "stuck":
        return best
    wall = 20.0
    # make the choices explicit first
    i, r = par_eval(prop, [(plan, script)], seed, klass, wall)
    if i is None:
        return best
    best = (plan, script, r)
    changed = True
    while changed and REAL.monotonic() < end:
        changed = False
        plan, script, _ = best
        # schedules: truncate, zero
        trial = []
        n = len(script)
        for cut in {0, n // 4, n // 2, (3 * n) // 4, n - 1}:
            if 0 <= cut < n:
                trial.append((plan, script[:cut]))
        nz = [k for k, v in enumerate(script) if v]
        if nz:
            half = set(nz[: len(nz) // 2])
            trial.append((plan, [0 if k in half else v for k, v in enumerate(script)]))
            trial.append((plan, [v if k in half else 0 for k, v in enumerate(script)]))
        if trial:
            i, r = par_eval(prop, trial, seed, klass, wall)
            if i is not None:
                best = (trial[i][0], trial[i][1], r)
                changed = True
                continue
        batch = []
        for cand in candidates(plan):
            batch.append((cand, script))
            if len(batch) == LANES * 2:
                i, r = par_eval(prop, batch, seed, klass, wall)
                if i is not None:
                    best = (batch[i][0], batch[i][1], r)
                    changed = True
                    break
                batch = []
                if REAL.monotonic() > end:
                    break
        if not changed and batch and REAL.monotonic() < end:
            i, r = par_eval(prop, batch, seed, klass, wall)
            if i is not None:
                best = (batch[i][0], batch[i][1], r)
                changed = True
        if not changed and REAL.monotonic() < end:
            # single choices to zero
            trial = [(plan, script[:k] + [0] + script[k + 1 :]) for k in nz[:64]]
            for j in range(0, len(trial), LANES * 2):
                i, r = par_eval(prop, trial[j : j + LANES * 2], seed, klass, wall)
                if i is not None:
                    best = (trial[j + i][0], trial[j + i][1], r)
                    changed = True
                    break
    return best
