"""Running operations on instances inside a simulated run, and reference executions in pristine processes."""
import sys
import warnings

import numpy as np

from dst import faults, sim as simmod, workload as w
from dst.faults import INJ
from dst.seams import CTX, SimStream
from dst.workload import Outcome, attempt, build, decompose, observe

LOOSE = 1e-6  # instances that cannot be checked for conditioning
ROUND = 1e-9  # CEEMDAN sums trials in completion order; cases that amplify rounding are recognised and set aside
STRICT = 1e-9


# -- one call under faults -------------------------------------------------------------------------
def do_call(sim, inst, cls, call, flts=(), S=None, T=None):
    """One decomposition call with the planned faults. Returns (Outcome, fault fired or None)."""
    caller = [f for f in flts if f["kind"] in ("alloc", "ctrlc")]
    serial_dec = [f for f in flts if f["kind"] == "decomposer" and "task" not in f]
    errs = [f for f in flts if f["kind"] == "stderr"]
    rest = [f for f in flts if f not in caller and f not in serial_dec and f not in errs]
    sim.begin_op(rest)
    sim.event("call", cls)
    cf = caller[0] if caller else None
    go = lambda: decompose(inst, cls, call, S, T)
    if cf is not None:
        kind = "alloc" if cf["kind"] == "alloc" else "interrupt"
        k = None
        if cf["at"][0] != "abs":

            def count():
                CTX.probe = lambda *a: None
                sim.op_faults = []
                INJ.start(kind)
                attempt(go)
                return INJ.stop()

            key = repr((cls, call, cf)) if sim.totals is not None else None
            total = sim.totals.get(key) if key else None
            if total is None:
                total = simmod.forkcall(count)
                if key:
                    sim.totals[key] = total
            if total:
                k = faults.resolve(cf["at"], total)
        else:
            k = int(cf["at"][1])
        if k is not None:
            INJ.start(kind, k, cf.get("exc", "MemoryError") if kind == "alloc" else "KeyboardInterrupt")
    if serial_dec:
        CTX.hook_fault = [serial_dec[0].get("call", 0), serial_dec[0]["exc"]]
        CTX.hook_fired = False
    old_err = sys.stderr
    if errs:
        sys.stderr = SimStream()
        sys.stderr.fail_at = errs[0]["at"]
        sys.stderr.exc = errs[0]["errno"]
    try:
        out = attempt(go)
    finally:
        INJ.stop()
        if errs:
            if sys.stderr.fired:
                sim.fire(errs[0])
            sys.stderr = old_err
    if cf is not None and INJ.fired is not None:
        sim.fire({**cf, "where": INJ.fired})
        INJ.fired = None
    if serial_dec and CTX.hook_fired:
        sim.fire(serial_dec[0])
    CTX.hook_fault = None
    CTX.hook_fired = False
    sim.event("done", out.kind, out.exc, None if out.kind != "ok" else np.asarray(out.value).shape)
    fired = list(sim.fired)
    sim.end_op()
    sim.count("calls")
    return out, fired


def open_pools(sim):
    return [p for p in sim.pools if p._state == "RUN"]


# -- reference executions (registered with the Template: run in forks of the pristine process) -----
def _ref_enter(env, sched=None):
    s = simmod.Sim("reference", simmod.Chooser(script=[]) if sched is None else simmod.Chooser(seed=sched), env or {})
    if env and env.get("start", "fork") != "fork":
        s.template = simmod.Template(REGISTRY)
    s.enter({"cpus": 4, **(env or {})})
    warnings.simplefilter("ignore")
    return s


def ref_call(cfg, seed, call, perturb=0.0, env=None, sched=None):
    """A fresh instance, seeded, one call."""
    s = _ref_enter(env, sched)
    inst = build(cfg)
    if seed is not None:
        inst.noise_seed(seed)
    S = T = None
    if perturb:
        S = w.signal(call["sig"])
        T = w.timeline(call.get("t"), call["sig"]["n"])
        S = S * (1.0 + perturb * np.cos(np.arange(S.size) * 2.3))
    out, _ = do_call(s, inst, cfg["cls"], call, S=S, T=T)
    return out, observe(inst, cfg["cls"])


def run_ops(sim, inst, cls, ops):
    """Operations on one instance; returns what each showed."""
    seen = []
    for op in ops:
        seen.append(run_op(sim, inst, cls, op))
    return seen


def run_op(sim, inst, cls, op):
    k = op["op"]
    if k == "call":
        if op.get("seed") is not None:
            inst.noise_seed(op["seed"])
        out, fired = do_call(sim, inst, cls, op["call"], op.get("faults", ()))
        return out
    sim.event("op", k)
    if k == "seed":
        return attempt(lambda: inst.noise_seed(op["seed"]))
    if k == "noise":
        return attempt(lambda: inst.generate_noise(op["scale"], op["n"]))
    if k == "set":
        return attempt(lambda: w.apply_settings(inst, op["set"]))
    if k == "observe":
        return Outcome("obs", observe(inst, cls))
    if k == "global":
        do_global(op)
        return Outcome("ok", None)
    raise KeyError(k)


def do_global(op):
    import random

    what = op["what"]
    if what == "np_seed":
        np.random.seed(op["v"])
    elif what == "py_seed":
        random.seed(op["v"])
    elif what == "np_draw":
        np.random.rand(op["v"] % 7 + 1)
    elif what == "clock":
        CTX.advance(float(op["v"]))
    else:
        raise KeyError(what)


def ref_seq(cfg, ops, env=None):
    """A fresh instance in a pristine process, a sequence of operations; outcomes and final observation."""
    s = _ref_enter(env)
    s.template = None
    inst = build(cfg)
    seen = run_ops(s, inst, cfg["cls"], ops)
    return seen, observe(inst, cfg["cls"]), settings(inst)


def ref_restore(blob, cls, ops, env):
    """A fresh process that restores a pickled instance and goes on."""
    import pickle

    s = _ref_enter(env)
    inst = pickle.loads(blob)
    first = observe(inst, cls)
    st = settings(inst)
    seen = run_ops(s, inst, cls, ops)
    return first, st, seen, observe(inst, cls)


def settings(inst):
    """Public plain-valued attributes of an instance and its decomposer: its settings as a user sees them."""
    out = {}

    def walk(obj, prefix, depth):
        for k, v in sorted(vars(obj).items()):
            if k.startswith("_") or k in ("random", "max_imf", "calls"):
                continue
            if isinstance(v, (bool, int, float, str, type(None))):
                out[prefix + k] = v
            elif isinstance(v, dict) and v and all(isinstance(x, str) for x in v):
                out[prefix + k] = {a: float(b) if isinstance(b, (int, float)) else str(b) for a, b in v.items()}
            elif k in ("EMD",) and depth == 0 and hasattr(v, "__dict__"):
                walk(v, prefix + k + ".", depth + 1)

    walk(inst, "", 0)
    for k in ("imfs", "residue", "E_IMF", "C_IMF", "EMD.imfs", "EMD.residue"):
        out.pop(k, None)
    return out


REGISTRY = {
    "ref_call": ref_call,
    "ref_seq": ref_seq,
    "ref_restore": ref_restore,
}


def _worker(conn, init):
    from dst.pool import worker_main

    worker_main(conn, init)


REGISTRY["worker"] = _worker


# -- comparing an ensemble with its serial, fault-free reference -----------------------------------
class Ref:
    """Fault-free reference of a seeded ensemble call, with a measure of its conditioning.

    The reference is the serial execution of a fresh instance. Whether parallel execution equals serial execution is what
    C01 and C02 judge (scheduling=True). Everything else is judged relative to parallel executions of fresh instances when
    those differ from the serial one, so that a scheduling defect is not blamed on faults, history or memory layout.
    """

    def __init__(self, sim, cfg, seed, call, scheduling=False):
        self.sim, self.full, self.seed, self.call = sim, cfg, seed, call
        self.cfg = w.serial(cfg)
        self.scheduling = scheduling
        self.out, self.obs = sim.template.call("ref_call", self.cfg, seed, call)
        self.tol = STRICT if cfg["cls"] == "EEMD" else ROUND
        self._ill = None
        self._controls = None

    def ill(self):
        """Whether rounding alone can change this case's result visibly (sifting decisions are discontinuous)."""
        if self._ill is None:
            self._ill = False
            for size in (1e-13, -1e-13, 3e-14, -3e-14):
                o2, _ = self.sim.template.call("ref_call", self.cfg, self.seed, self.call, size)
                self._ill = self._ill or not w.same_outcome(self.out, o2, ROUND)
            if self._ill:
                self.sim.count("ill_conditioned")
        return self._ill

    def controls(self):
        """Fresh instances of the very (parallel) configuration, fault-free, under several schedules."""
        if self._controls is None:
            self._controls = []
            if not self.scheduling and w.is_parallel(self.full):
                env = {"start": self.sim.start_method, "cpus": CTX.cpus}
                for sched in (None, 1, 2, 3, 4):
                    self._controls.append(self.sim.template.call("ref_call", self.full, self.seed, self.call, 0.0, env, sched))
        return self._controls

    def unsteady(self):
        """Whether parallel executions of fresh instances differ among themselves."""
        c = self.controls()
        return bool(c) and not all(w.same_outcome(c[0][0], o, self.tol) and w.same_obs(c[0][1], b, self.tol, unordered=True) is None for o, b in c)

    def unsteady_now(self, out):
        """unsteady(), looked at only when out differs from the serial reference."""
        if w.same_outcome(out, self.out, self.tol) or (self.cfg["cls"] == "CEEMDAN" and self.ill()):
            return False
        return self.unsteady()

    def agrees(self, out):
        if w.same_outcome(out, self.out, self.tol):
            return True
        if self.cfg["cls"] == "CEEMDAN" and out.kind == self.out.kind == "ok" and self.ill():
            return True
        if any(w.same_outcome(out, o, self.tol) for o, _ in self.controls()) or self.unsteady():
            self.sim.count("not_attributable")
            return True
        return False

    def obs_diff(self, obs, keys=None):
        def diff(a, b):
            a = {k: v for k, v in a.items() if keys is None or k in keys}
            b = {k: v for k, v in b.items() if keys is None or k in keys}
            return w.same_obs(a, b, self.tol, unordered=True)

        d = diff(obs, self.obs)
        if d is None:
            return None
        if self.cfg["cls"] == "CEEMDAN" and self.ill():
            return None
        if any(diff(obs, b) is None for _, b in self.controls()) or self.unsteady():
            self.sim.count("not_attributable")
            return None
        return d
