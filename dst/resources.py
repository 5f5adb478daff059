"""Properties about what a call uses: memory and other resources kept over repeated use, and worker processes."""
import atexit
import collections
import copy
import gc
import logging
import os
import pickle
import sys
import threading
import tracemalloc
import types

from dst import pool, props as p, workload as w, world
from dst.seams import CTX
from dst.sim import Violation
from dst.workload import build

MORE = 25  # repetitions after which what grew with every single one of them is not a matter of free lists
LEAK = 200  # bytes per repetition; one retained array of the sizes used here is more. Smaller blocks are left out: the
# free lists of CPython and numpy hand out blocks allocated before tracing began, which looks like slow growth


def census(sim, inst):
    """What this process holds: traced memory not belonging to the simulator, file descriptors, threads."""
    for q in sim.pools:
        if q._state == "RUN":
            return None  # C08's subject
    sim.pools.clear()
    sim.probes = []
    sim.fired = []
    w._BUFS.clear()
    gc.collect()
    snap = tracemalloc.take_snapshot()
    here = os.path.dirname(os.path.abspath(__file__))
    size = 0
    for t in snap.traces:
        f = t.traceback[-1].filename
        if t.size >= LEAK and not f.startswith(here) and not f.endswith("tracemalloc.py"):
            size += t.size
    return {"memory": size, "open files": len(os.listdir("/proc/self/fd")), "threads": threading.active_count(), "worker pools": len(pool.ALL),
            "loggers": len(logging.Logger.manager.loggerDict), "exit handlers": atexit._ncallbacks(), "small objects": reachable(inst)}


def reachable(inst):
    """Number of elements in the containers reachable from the instance, the library's modules and its classes."""
    n = 0
    seen = set()
    todo = [inst]
    mods = [m for k, m in sorted(sys.modules.items()) if (k == "PyEMD" or k.startswith("PyEMD.")) and ".tests" not in k]
    todo.extend(vars(m) for m in mods)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            n += len(o)
            todo.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            n += len(o)
            if len(o) < 10000:
                todo.extend(o)
        elif hasattr(o, "cache_info"):
            n += o.cache_info().currsize
        elif isinstance(o, type):
            if o.__module__.startswith("PyEMD"):
                todo.extend(dict(vars(o)).values())
        elif isinstance(o, types.FunctionType):
            if (o.__module__ or "").startswith("PyEMD"):
                todo.extend([o.__defaults__ or (), o.__kwdefaults__ or {}, o.__dict__])
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif type(o).__module__.startswith("PyEMD") and hasattr(o, "__dict__"):
            todo.append(vars(o))
    return n


class C15(p.Prop):
    """Repeating calls keeps nothing."""

    id = "C15"
    echoes = False
    runs = {"quick": 1200, "thorough": 24000}
    rule = ("plan: a cycle of 1-3 calls of any class, on one instance or on new instances, complete, failing or cut short by an injected fault, "
            "repeated identically (or with other signals more often than any cache is likely to be large); memory, file descriptors and threads counted "
            "after each repetition. Non-trivial: at least six repetitions; distinct by digest")

    def gen(self, r, tier):
        kinds = ["EMD"] * 6 + ["EEMD"] * 5 + ["CEEMDAN"] * 5 + ["matlab"] * 2 + ["jit", "EMD2D", "BEMD"]
        cfg = p.gen_inst(r, r.choice(kinds), parallel=r.random() < 0.15)
        k = cfg["cls"]
        slow = k in ("jit", "EMD2D", "BEMD")
        if k == "EMD2D":
            cfg["kw"]["MAX_ITERATION"] = 2
        varied = k in ("EMD", "EEMD", "CEEMDAN", "matlab") and r.random() < 0.12
        if k in ("EEMD", "CEEMDAN"):
            cfg["kw"]["trials"] = min(cfg["kw"]["trials"], 4 if (cfg.get("dec") or {}).get("type") in ("modes", "counting", "identity") else 2)
            if varied:
                cfg = w.serial(cfg)
                cfg["kw"]["trials"] = min(cfg["kw"]["trials"], 2)
                cfg["dec"] = {"type": "modes"}
                cfg.pop("swap", None)
                cfg["set"] = {}
        elif varied:
            cfg.setdefault("kw" if k == "EMD" else "set", {})["MAX_ITERATION"] = 3
        ops = []
        for _ in range(1 if varied or slow else r.randint(1, 3)):
            x = r.random()
            if x < 0.1 and k in ("EEMD", "CEEMDAN"):
                ops.append({"op": "noise", "scale": 1.0, "n": 80})
                continue
            if x < 0.15 and k == "EMD":
                ops.append({"op": "set", "set": p.gen_setting(r, cfg)})
                continue
            c = p.gen_any_call(r, cfg, bad=0.1 if k in ("EMD", "EEMD", "CEEMDAN") and not varied else 0)
            if "sig" in c:
                c["sig"]["n"] = r.randint(64, 90)
                if varied:
                    c["max_imf"] = 1
                    c["progress"] = False
                    c["t"] = r.choice([None, {"k": "nonuni", "s": 0}])
            op = {"op": "call", "call": c, "faults": []}
            if k in ("EEMD", "CEEMDAN"):
                op["seed"] = r.randrange(10**5)
            if not varied and r.random() < 0.45:
                if cfg.get("kw", {}).get("parallel") and r.random() < 0.6:
                    op["faults"] = p.gen_worker_faults(r, cfg)
                elif slow:
                    op["faults"] = [{"kind": r.choice(["alloc", "ctrlc"]), "at": ["abs", r.randint(1, 500)]}]
                else:
                    op["faults"] = p.gen_caller_fault(r, cfg, c)
            ops.append(op)
            if r.random() < 0.2:
                ops.append({"op": r.choice(["observe", "save"])})
        if not any(o["op"] == "call" for o in ops):
            ops.append({"op": "call", "call": p.gen_any_call(r, cfg), "faults": [], **({"seed": 3} if k in ("EEMD", "CEEMDAN") else {})})
            if "sig" in ops[-1]["call"]:
                ops[-1]["call"]["sig"]["n"] = 80
        return {"cfg": cfg, "ops": ops, "fresh": r.random() < 0.5, "varied": varied, "env": w.gen_env(r)}

    def run(self, plan, sim):
        self.inst = None
        sim.totals = {}
        if plan["varied"]:
            marks = [150, 180, 210, 240, 270]  # beyond the customary 128 entries of a cache
        else:
            marks = [2, 3, 4, 5, 6]
        seen = []
        for rep in range(1, marks[-1] + 1):
            if rep == max(1, marks[0] - 10):
                tracemalloc.start(1)
            self.cycle(plan, sim, rep)
            if plan["fresh"]:
                self.inst = None
            if rep in marks:
                c = census(sim, self.inst)
                if c is None:
                    return
                seen.append(c)
        if min(b["small objects"] - a["small objects"] for a, b in zip(seen, seen[1:])) > 0:  # look closer
            sim.count("looked_closer")
            for rep in range(marks[-1] + 1, marks[-1] + MORE + 1):
                self.cycle(plan, sim, rep)
                if plan["fresh"]:
                    self.inst = None
                c = census(sim, self.inst)
                if c is None:
                    return
                seen.append(c)
                marks.append(rep)
                if c["small objects"] <= seen[-2]["small objects"]:
                    break
        tracemalloc.stop()
        sim.count("nontrivial")
        sim.count("repetitions", marks[-1])
        for what in seen[0]:
            steps = [b[what] - a[what] for a, b in zip(seen, seen[1:])]
            per = [s / (m2 - m1) for s, m1, m2 in zip(steps, marks, marks[1:])]
            if what == "small objects" and len(per) < MORE:
                continue
            if min(per) >= (LEAK if what == "memory" else 1):
                how = "new instances" if plan["fresh"] else "one instance"
                raise Violation("accumulates", f"repeating the same calls of {plan['cfg']['cls']} on {how} keeps adding to {what}: {steps} from repetition {marks} to the next")

    def cycle(self, plan, sim, rep):
        cls = plan["cfg"]["cls"]
        log = len(sim.log)
        if self.inst is None:
            self.inst = build(plan["cfg"])
        for op in plan["ops"]:
            if plan["varied"] and "call" in op:
                op = {**op, "call": {**op["call"], "sig": {**op["call"]["sig"], "s": rep, "n": op["call"]["sig"]["n"] + rep % 7}}}
                if op["call"]["t"]:
                    op["call"]["t"] = {"k": "nonuni", "s": rep}
                if op.get("seed") is not None:
                    op["seed"] = rep
            if op["op"] == "save":
                w.attempt(lambda: (copy.deepcopy(self.inst), pickle.loads(pickle.dumps(self.inst))))
            else:
                world.run_op(sim, self.inst, cls, op)
        if rep > 1:
            del sim.log[log:]


class C16(p.Prop):
    """As many workers as configured, and only when configured."""

    id = "C16"
    runs = {"quick": 2200, "thorough": 44000}
    rule = ("plan: an EEMD/CEEMDAN instance, 2-5 calls with parallelism switched on and off and the number of processes changed in between (or left "
            "to the CPU count), with stalls, failing trials, dying workers, failing pool starts and interrupts; workers in existence are counted "
            "whenever a pool starts. Non-trivial: a pool was started or parallelism was off after being on; distinct by digest")

    def gen(self, r, tier):
        cfg = p.gen_inst(r, r.choice(["EEMD", "CEEMDAN"]), parallel=r.random() < 0.75)
        cfg["kw"]["trials"] = max(2, cfg["kw"]["trials"])
        cfg.pop("swap", None)
        pools = 1 if cfg["cls"] == "EEMD" else 2
        x = r.random()
        if x < 0.3:
            cfg["kw"].pop("processes", None)
        elif x < 0.8 and cfg["kw"]["parallel"]:
            cfg["kw"]["processes"] = r.randint(1, 6)
        ops = []
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.5:
                ops.append({"op": "set", "set": r.choice([{"processes": r.randint(1, 7)}, {"processes": r.randint(1, 3)}, {"processes": None}, {"parallel": False},
                                                          {"parallel": True}, {"parallel": True, "processes": r.randint(1, 4)}, {"trials": r.randint(2, 9)}])})
            f = []
            x = r.random()
            if x < 0.12:
                f = [{"kind": "kill", "pool": r.randrange(pools), "task": r.randint(0, 6)}]
            elif x < 0.4:
                f = p.gen_worker_faults(r, cfg)
            elif x < 0.5:
                f = p.gen_caller_fault(r, cfg, {})
            ops.append({"op": "call", "call": p.gen_ens_call(r, cfg, hi=40), "seed": r.randrange(10**5), "faults": f + p.gen_stalls(r, pools, 0.3)})
        env = w.gen_env(r)
        env["cpus"] = r.choice([1, 2, 3, 5, 8])
        if r.random() < 0.06:  # a big machine
            many = r.choice([12, 20, 33, 48, 65, 100])
            env["cpus"] = r.choice([many, 8])
            cfg["dec"] = {"type": r.choice(["identity", "modes"])}
            cfg["set"] = {}
            cfg["kw"].update(parallel=True, trials=many + r.randint(0, 9), processes=None if env["cpus"] == many and r.random() < 0.5 else many)
            ops = [{"op": "call", "call": {**p.gen_ens_call(r, cfg, hi=24), "max_imf": 1}, "seed": 5, "faults": []} for _ in range(1)]
            ops[0]["call"]["sig"]["n"] = 16
        return {"cfg": cfg, "ops": ops, "env": env}

    def run(self, plan, sim):
        cfg = plan["cfg"]
        cls = cfg["cls"]
        inst = build(cfg)
        par = bool(cfg["kw"]["parallel"])
        limit = cfg["kw"].get("processes")
        was = past = False
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "set":
                world.run_op(sim, inst, cls, op)
                par = op["set"].get("parallel", par)
                limit = op["set"].get("processes", limit)
                continue
            inst.noise_seed(op["seed"])
            most = limit if limit is not None else CTX.cpus
            sim.peak, t0 = 0, sim.counts.get("tasks", 0)
            threads = threading.active_count()
            out, fired = world.do_call(sim, inst, cls, op["call"], op["faults"])
            tasks = sim.counts.get("tasks", 0) - t0
            if par or was:
                sim.count("nontrivial")
            was = was or par
            if out.kind == "hang":
                return  # a killed worker, or C08's subject
            how = f"parallel={par}, processes={limit}, {CTX.cpus} CPUs"
            if not par and (sim.peak or tasks):
                raise Violation("workers-unasked", f"call {k} of {cls} ({how}) started {sim.peak} worker(s)")
            if sim.peak > most:
                raise Violation("too-many-workers", f"call {k} of {cls} ({how}) had {sim.peak} workers at a time")
            if threading.active_count() > threads:
                raise Violation("workers-unasked", f"call {k} of {cls} ({how}) left {threading.active_count() - threads} thread(s) running")
            if par and most >= 2 and out.kind == "ok" and not fired and not tasks:
                raise Violation("parallel-ignored", f"call {k} of {cls} ({how}) used no worker")
            if par and out.kind == "ok" and not fired and sim.peak < min(most, inst.trials):
                raise Violation("too-few-workers", f"call {k} of {cls} ({how}) with {inst.trials} trials had only {sim.peak} worker(s)")
            if par and out.kind == "ok" and not fired and past:  # as much work for workers as on an instance without a past
                other = build(cfg)
                for o in plan["ops"][:k]:
                    if o["op"] == "set":
                        w.apply_settings(other, o["set"])
                other.noise_seed(op["seed"])
                t0 = sim.counts.get("tasks", 0)
                out2, fired2 = world.do_call(sim, other, cls, op["call"], [])
                want = sim.counts.get("tasks", 0) - t0
                if out2.kind == "ok" and not fired2 and tasks < 0.8 * want:
                    raise Violation("parallel-ignored", f"call {k} of {cls} ({how}) gave its workers {tasks} task(s), on an instance without earlier calls they get {want}")
                sim.count("compared_tasks")
            past = past or out.kind != "ok" or op["seed"] % 4 == 0


p.PROPS.update({c.id: c() for c in (C15, C16)})
